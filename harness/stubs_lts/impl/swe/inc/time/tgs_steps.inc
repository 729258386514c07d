// stand-in: the computational steps themselves are not part of this harness
