//! Only here to have its dependencies built
