//! Only here so that cargo builds the dependencies of rusty-machine.
