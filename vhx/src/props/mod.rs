use crate::runner::Prop;

mod cli;
mod cloud;
mod cloud_srv;
mod lcd;
mod sdl;
mod term;

pub use term::child;

pub fn all() -> Vec<Prop> {
    vec![cli::s12(), cloud::k01(), lcd::d01(), sdl::g01(), term::t01()]
}
