#[path = "../../prog.rs"]
mod prog;

use simcore::{choice, exec, net};

fn fd_size(n: usize) -> usize {
	if n == 0 { 0 } else { unsafe { libc::CMSG_SPACE(4 * n as u32) as usize } }
}

fn main() {
	let dir: std::path::PathBuf = std::env::args().nth(1).unwrap().into();
	exec::install_panic_hook();
	exec::setup(exec::ExecConfig::default(), choice::Source::Seed(1), false, false);
	net::configure(net::NetConfig::default());
	let out = std::rc::Rc::new(std::cell::RefCell::new(Vec::new()));
	let o = out.clone();
	exec::spawn("main", 1, async move {
		let l = prog::all(&dir, fd_size).await;
		*o.borrow_mut() = l;
	});
	let r = exec::run();
	for p in &r.panics {
		println!("panic: {} at {}", p.message, p.location);
	}
	for l in out.borrow().iter() {
		println!("{l}");
	}
	exec::teardown();
}
