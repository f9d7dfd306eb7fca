//! Simulation of finding and loading projects: the real project discovery and crate construction over
//! scratch directories whose system calls the simulator orders, disturbs and lets fail.
mod world;
#[path = "gen.rs"]
mod r#gen;
mod fam {
    pub mod discover;
    pub mod load;
    pub mod workspace;
}
fn main() {
    drv::Registry::new().add(fam::load::F).add(fam::discover::F).add(fam::workspace::F).main()
}
