#[path = "../../prog.rs"]
mod prog;

fn fd_size(n: usize) -> usize {
	if n == 0 { 0 } else { unsafe { libc::CMSG_SPACE(4 * n as u32) as usize } }
}

fn main() {
	let dir = std::env::args().nth(1).unwrap();
	let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
	for l in rt.block_on(prog::all(dir.as_ref(), fd_size)) {
		println!("{l}");
	}
}
