//! getaddrinfo of this process: every name is recorded and leads to one loopback address.
use crate::peer::Log;
use serde_json::json;
use std::ffi::{c_char, c_int, CStr};
use std::net::Ipv4Addr;
use std::sync::Mutex;

static ADDRESS: Mutex<Ipv4Addr> = Mutex::new(Ipv4Addr::LOCALHOST);
static LOG: Mutex<Option<Log>> = Mutex::new(None);

pub fn lead_to(ip: Ipv4Addr) {
  *ADDRESS.lock().unwrap() = ip;
}
pub fn watch(log: Option<Log>) {
  *LOG.lock().unwrap() = log;
}

#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(node: *const c_char, service: *const c_char, _: *const libc::addrinfo, res: *mut *mut libc::addrinfo) -> c_int {
  let name = if node.is_null() { &[][..] } else { CStr::from_ptr(node).to_bytes() };
  if let Some(log) = LOG.lock().unwrap().as_ref() {
    log.lock().unwrap().push(json!({"e": "resolve", "name": name}));
  }
  let port: u16 = if service.is_null() { 0 } else { CStr::from_ptr(service).to_string_lossy().parse().unwrap_or(0) };
  let mut addr: Box<libc::sockaddr_in> = Box::new(std::mem::zeroed());
  addr.sin_family = libc::AF_INET as _;
  addr.sin_port = port.to_be();
  addr.sin_addr.s_addr = u32::from_ne_bytes(ADDRESS.lock().unwrap().octets());
  let mut info: Box<libc::addrinfo> = Box::new(std::mem::zeroed());
  info.ai_family = libc::AF_INET;
  info.ai_socktype = libc::SOCK_STREAM;
  info.ai_addrlen = std::mem::size_of::<libc::sockaddr_in>() as _;
  info.ai_addr = Box::into_raw(addr) as *mut _;
  *res = Box::into_raw(info);
  0
}

#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(res: *mut libc::addrinfo) {
  let info = Box::from_raw(res);
  drop(Box::from_raw(info.ai_addr as *mut libc::sockaddr_in));
}
