use crate::runner::Prop;

mod calls;
mod console;
mod core;
mod files;
mod front;
mod gfx;
mod limits;
mod machine;
mod prog;
mod std1;
mod ui;
mod whole;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(core::props());
    v.extend(front::props());
    v.extend(std1::props());
    v.extend(files::props());
    v.extend(ui::props());
    v.extend(prog::props());
    v.extend(gfx::props());
    v.extend(console::props());
    v.extend(machine::props());
    v.extend(limits::props());
    v.extend(calls::props());
    v.extend(whole::props());
    v
}
