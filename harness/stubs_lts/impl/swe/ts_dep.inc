// stand-in: dependencies of the computational steps
