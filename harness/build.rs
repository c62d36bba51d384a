fn main() {
	// rand looks getrandom up with dlsym: the interposed one must be visible.
	println!("cargo:rustc-link-arg-bins=-rdynamic");
	println!("cargo:rerun-if-changed=build.rs");
}
