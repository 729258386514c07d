#include "vp.h"
#include <vector>
#include <set>
static uint64_t gcd2(uint64_t a,uint64_t b){ while(b){ uint64_t t=a%b; a=b; b=t;} return a; }
extern "C" void vp_entry() {
  std::vector<int> v;
  uint64_t n = vp_pick("n",0,4);
  for( uint64_t i=0;i<n;i++ ) v.push_back( (int)vp_u64("x",0,5) );
  std::set<int> s( v.begin(), v.end() );
  int last=-1; 
  for( int x : s ) { vp_assert( x>last, "sorted" ); last=x; }
  vp_assert( s.size() <= v.size(), "size" );
  double a=vp_f64("a",-1,1), b=vp_f64("b",-1,1);
  vp_close( (a+b)*(a-b), a*a-b*b, 1e-9, "binom");
  uint64_t idx=vp_u64("idx",0,3);
  int tab[4]={1,2,3,4};
  tab[idx] = 7;
  vp_assert( tab[vp_u64("j",0,3)] <= (n==3?5:7), "tab" );
  vp_reach("end");
}
