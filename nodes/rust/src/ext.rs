use crate::Msg;

#[derive(Default)]
pub struct State {}

pub fn command(_st: &mut State, c: u8, _m: &mut Msg, _out: &mut Vec<u8>) {
    eprintln!("HARNESS: command {c}");
    unsafe { crate::_exit(9) }
}
