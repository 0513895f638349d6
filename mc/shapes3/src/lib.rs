include!(concat!(env!("MC_GEN"), "/shapes3.rs"));
