mod vp;
mod spec;
mod msg;
mod mac;
mod codec;
mod small;
mod hooks;
mod coder;

/// stand-in for `alloc::fmt::format` (error messages are not part of any property)
#[no_mangle]
pub extern "C" fn vp_empty_string(out: *mut String) {
    unsafe { out.write(String::new()) }
}
