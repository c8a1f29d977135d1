//! The C functions, described uniformly, and the buffers given to them.
use cosmian_abe_gpsw::interfaces::ffi::{error::*, generate_gpsw_keys::*, hybrid_gpsw_aes::*};
use std::os::raw::{c_char, c_int};
use std::sync::OnceLock;

/// The functions called: those linked into this program, or those a shared
/// library made from the current tree exports, found by their names
macro_rules! api {
    ($($name:ident $args:tt)*) => {
        #[allow(non_snake_case)]
        pub struct Api { $(pub $name: api!(@ty $args)),* }
        impl Api {
            fn linked() -> Api {
                Api { $($name: $name),* }
            }
            unsafe fn loaded(path: &str) -> Result<Api, String> {
                let c = std::ffi::CString::new(path).expect("path");
                let h = libc::dlopen(c.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
                if h.is_null() {
                    return Err(format!("{path} cannot be loaded"));
                }
                Ok(Api { $($name: {
                    let p = libc::dlsym(h, concat!(stringify!($name), "\0").as_ptr().cast());
                    if p.is_null() {
                        return Err(concat!(stringify!($name), " is not exported").into());
                    }
                    std::mem::transmute::<*mut libc::c_void, api!(@ty $args)>(p)
                }),* })
            }
        }
    };
    (@ty ($($t:ty),*)) => { unsafe extern "C" fn($($t),*) -> c_int };
}
api! {
    set_error (*const c_char)
    get_last_error (*mut c_char, *mut c_int)
    h_generate_master_keys (*mut c_char, *mut c_int, *const c_char)
    h_generate_user_private_key (*mut c_char, *mut c_int, *const c_char, c_int, *const c_char, *const c_char)
    h_rotate_attributes (*mut c_char, *mut c_int, *const c_char, *const c_char)
    h_aes_create_encryption_cache (*mut c_int, *const c_char, *const c_char, c_int)
    h_aes_destroy_encryption_cache (c_int)
    h_aes_encrypt_header_using_cache (*mut c_char, *mut c_int, *mut c_char, *mut c_int, c_int, *const c_char, *const c_char, c_int, *const c_char, c_int)
    h_aes_encrypt_header (*mut c_char, *mut c_int, *mut c_char, *mut c_int, *const c_char, *const c_char, c_int, *const c_char, *const c_char, c_int, *const c_char, c_int)
    h_aes_create_decryption_cache (*mut c_int, *const c_char, c_int)
    h_aes_destroy_decryption_cache (c_int)
    h_aes_decrypt_header_using_cache (*mut c_char, *mut c_int, *mut c_char, *mut c_int, *mut c_char, *mut c_int, *const c_char, c_int, c_int)
    h_aes_decrypt_header (*mut c_char, *mut c_int, *mut c_char, *mut c_int, *mut c_char, *mut c_int, *const c_char, c_int, *const c_char, c_int)
    h_get_encrypted_header_size (*const c_char, c_int)
    h_aes_symmetric_encryption_overhead ()
    h_aes_encrypt_block (*mut c_char, *mut c_int, *const c_char, c_int, *const c_char, c_int, c_int, *const c_char, c_int)
    h_aes_decrypt_block (*mut c_char, *mut c_int, *const c_char, c_int, *const c_char, c_int, c_int, *const c_char, c_int)
}
static API: OnceLock<Api> = OnceLock::new();

/// Whether the functions are those of a shared library
pub fn load() -> Result<bool, String> {
    let Ok(path) = std::env::var("VMON_CDYLIB") else { return Ok(false) };
    let a = unsafe { Api::loaded(&path)? };
    Ok(API.set(a).is_ok())
}
pub fn api() -> &'static Api {
    API.get_or_init(Api::linked)
}

/// Where the bytes lie in the memory around them
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Place {
    /// followed at once by an inaccessible page
    End,
    /// preceded at once by an inaccessible page
    Start,
    /// an allocation of that very size (watched by AddressSanitizer when built with it)
    Heap,
}

pub struct Buf {
    base: *mut u8,
    total: usize,
    ptr: *mut u8,
    len: usize,
    heap: Option<Box<[u8]>>,
    read_only: bool,
}
unsafe impl Send for Buf {}

const PAGE: usize = 4096;

impl Buf {
    pub fn new(len: usize, place: Place) -> Buf {
        if place == Place::Heap {
            let mut b = vec![0u8; len].into_boxed_slice();
            // a null pointer is never what an empty buffer is
            let ptr = b.as_mut_ptr();
            return Buf { base: std::ptr::null_mut(), total: 0, ptr, len, heap: Some(b), read_only: false };
        }
        let pages = (len + PAGE - 1) / PAGE + usize::from(len == 0);
        let total = (pages + 2) * PAGE;
        unsafe {
            let base = libc::mmap(
                std::ptr::null_mut(),
                total,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(base != libc::MAP_FAILED, "mmap");
            let base = base.cast::<u8>();
            assert_eq!(libc::mprotect(base.add(PAGE).cast(), pages * PAGE, libc::PROT_READ | libc::PROT_WRITE), 0);
            let ptr = match place {
                Place::End => base.add(PAGE + pages * PAGE - len),
                _ => base.add(PAGE),
            };
            Buf { base, total, ptr, len, heap: None, read_only: false }
        }
    }
    /// a buffer that must only be read
    pub fn with(data: &[u8], place: Place) -> Buf {
        let mut b = Buf::new(data.len(), place);
        b.bytes_mut().copy_from_slice(data);
        if place != Place::Heap {
            b.read_only = true;
            unsafe {
                assert_eq!(libc::mprotect(b.base.add(PAGE).cast(), b.total - 2 * PAGE, libc::PROT_READ), 0);
            }
        }
        b
    }
    pub fn filled(len: usize, place: Place, c: u8) -> Buf {
        let mut b = Buf::new(len, place);
        b.bytes_mut().fill(c);
        b
    }
    /// followed by a null byte
    pub fn cstr(s: &[u8], place: Place) -> Buf {
        let mut v = s.to_vec();
        v.push(0);
        Buf::with(&v, place)
    }
    pub fn ptr(&self) -> *mut c_char {
        self.ptr.cast()
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }
    fn bytes_mut(&mut self) -> &mut [u8] {
        assert!(!self.read_only);
        unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len) }
    }
}

impl Drop for Buf {
    fn drop(&mut self) {
        if self.heap.is_none() {
            unsafe {
                libc::munmap(self.base.cast(), self.total);
            }
        }
    }
}

/// The pointers and integers of a call, in the order of `Fun`
#[derive(Clone)]
pub struct Raw {
    /// output buffers and the addresses of their lengths
    pub outs: Vec<(*mut c_char, *mut c_int)>,
    pub ins: Vec<(*const c_char, c_int)>,
    pub strs: Vec<*const c_char>,
    /// cache handle or block number
    pub int: c_int,
    /// where a new cache handle goes
    pub handle: *mut c_int,
}

pub struct Fun {
    pub name: &'static str,
    pub outs: usize,
    /// outputs that may be omitted
    pub optional_outs: &'static [usize],
    pub ins: usize,
    pub optional_ins: &'static [usize],
    pub strs: usize,
    pub handle: bool,
    pub call: unsafe fn(&Raw) -> c_int,
}

pub const MASTER: usize = 0;
pub const USER: usize = 1;
pub const ROTATE: usize = 2;
pub const ENC_CREATE: usize = 3;
pub const ENC_CACHED: usize = 4;
pub const ENC: usize = 5;
pub const DEC_CREATE: usize = 6;
pub const DEC_CACHED: usize = 7;
pub const DEC: usize = 8;
pub const BLOCK_ENC: usize = 9;
pub const BLOCK_DEC: usize = 10;

pub const FUNS: [Fun; 11] = [
    Fun { name: "h_generate_master_keys", outs: 1, optional_outs: &[], ins: 0, optional_ins: &[], strs: 1, handle: false,
        call: |a| unsafe { (api().h_generate_master_keys)(a.outs[0].0, a.outs[0].1, a.strs[0]) } },
    Fun { name: "h_generate_user_private_key", outs: 1, optional_outs: &[], ins: 1, optional_ins: &[], strs: 2, handle: false,
        call: |a| unsafe { (api().h_generate_user_private_key)(a.outs[0].0, a.outs[0].1, a.ins[0].0, a.ins[0].1, a.strs[0], a.strs[1]) } },
    Fun { name: "h_rotate_attributes", outs: 1, optional_outs: &[], ins: 0, optional_ins: &[], strs: 2, handle: false,
        call: |a| unsafe { (api().h_rotate_attributes)(a.outs[0].0, a.outs[0].1, a.strs[0], a.strs[1]) } },
    Fun { name: "h_aes_create_encryption_cache", outs: 0, optional_outs: &[], ins: 1, optional_ins: &[], strs: 1, handle: true,
        call: |a| unsafe { (api().h_aes_create_encryption_cache)(a.handle, a.strs[0], a.ins[0].0, a.ins[0].1) } },
    Fun { name: "h_aes_encrypt_header_using_cache", outs: 2, optional_outs: &[], ins: 2, optional_ins: &[0, 1], strs: 1, handle: false,
        call: |a| unsafe { (api().h_aes_encrypt_header_using_cache)(a.outs[0].0, a.outs[0].1, a.outs[1].0, a.outs[1].1, a.int, a.strs[0],
            a.ins[0].0, a.ins[0].1, a.ins[1].0, a.ins[1].1) } },
    Fun { name: "h_aes_encrypt_header", outs: 2, optional_outs: &[], ins: 3, optional_ins: &[1, 2], strs: 2, handle: false,
        call: |a| unsafe { (api().h_aes_encrypt_header)(a.outs[0].0, a.outs[0].1, a.outs[1].0, a.outs[1].1, a.strs[0],
            a.ins[0].0, a.ins[0].1, a.strs[1], a.ins[1].0, a.ins[1].1, a.ins[2].0, a.ins[2].1) } },
    Fun { name: "h_aes_create_decryption_cache", outs: 0, optional_outs: &[], ins: 1, optional_ins: &[], strs: 0, handle: true,
        call: |a| unsafe { (api().h_aes_create_decryption_cache)(a.handle, a.ins[0].0, a.ins[0].1) } },
    Fun { name: "h_aes_decrypt_header_using_cache", outs: 3, optional_outs: &[1, 2], ins: 1, optional_ins: &[], strs: 0, handle: false,
        call: |a| unsafe { (api().h_aes_decrypt_header_using_cache)(a.outs[0].0, a.outs[0].1, a.outs[1].0, a.outs[1].1, a.outs[2].0, a.outs[2].1,
            a.ins[0].0, a.ins[0].1, a.int) } },
    Fun { name: "h_aes_decrypt_header", outs: 3, optional_outs: &[1, 2], ins: 2, optional_ins: &[], strs: 0, handle: false,
        call: |a| unsafe { (api().h_aes_decrypt_header)(a.outs[0].0, a.outs[0].1, a.outs[1].0, a.outs[1].1, a.outs[2].0, a.outs[2].1,
            a.ins[0].0, a.ins[0].1, a.ins[1].0, a.ins[1].1) } },
    Fun { name: "h_aes_encrypt_block", outs: 1, optional_outs: &[], ins: 3, optional_ins: &[1], strs: 0, handle: false,
        call: |a| unsafe { (api().h_aes_encrypt_block)(a.outs[0].0, a.outs[0].1, a.ins[0].0, a.ins[0].1, a.ins[1].0, a.ins[1].1, a.int,
            a.ins[2].0, a.ins[2].1) } },
    Fun { name: "h_aes_decrypt_block", outs: 1, optional_outs: &[], ins: 3, optional_ins: &[1], strs: 0, handle: false,
        call: |a| unsafe { (api().h_aes_decrypt_block)(a.outs[0].0, a.outs[0].1, a.ins[0].0, a.ins[0].1, a.ins[1].0, a.ins[1].1, a.int,
            a.ins[2].0, a.ins[2].1) } },
];

/// What a call is given: buffers to read are made of these bytes
#[derive(Clone, Default)]
pub struct Args {
    pub ins: Vec<Option<Vec<u8>>>,
    pub strs: Vec<Vec<u8>>,
    pub int: c_int,
}

pub struct Answer {
    pub rc: c_int,
    pub lens: Vec<c_int>,
    pub outs: Vec<Vec<u8>>,
    pub handle: c_int,
}

pub const CANARY: u8 = 0xC7;
pub const NO_HANDLE: c_int = -77_777;

/// A call with valid pointers, the capacities given, every buffer of exactly the size announced
pub fn call(f: &Fun, a: &Args, caps: &[c_int], place: Place) -> Answer {
    let outs: Vec<Buf> = caps.iter().map(|c| Buf::filled((*c).max(0) as usize, place, CANARY)).collect();
    let mut lens: Vec<c_int> = caps.to_vec();
    let ins: Vec<Option<Buf>> = a.ins.iter().map(|b| b.as_ref().map(|b| Buf::with(b, place))).collect();
    let strs: Vec<Buf> = a.strs.iter().map(|s| Buf::cstr(s, place)).collect();
    let mut handle = NO_HANDLE;
    let lp = lens.as_mut_ptr();
    let raw = Raw {
        outs: outs.iter().enumerate().map(|(i, b)| (b.ptr(), unsafe { lp.add(i) })).collect(),
        ins: ins
            .iter()
            .map(|b| b.as_ref().map_or((std::ptr::null(), 0), |b| (b.ptr().cast_const(), b.len() as c_int)))
            .collect(),
        strs: strs.iter().map(|b| b.ptr().cast_const()).collect(),
        int: a.int,
        handle: &mut handle,
    };
    let rc = unsafe { (f.call)(&raw) };
    for (b, x) in ins.iter().zip(&a.ins) {
        if let (Some(b), Some(x)) = (b, x) {
            assert_eq!(b.bytes(), &x[..], "an input buffer was modified");
        }
    }
    Answer { rc, outs: outs.iter().map(|b| b.bytes().to_vec()).collect(), lens, handle }
}

static HEADROOM: OnceLock<c_int> = OnceLock::new();

/// A call with generous buffers, enlarged when they are too small: the outputs, or the error
pub fn get(i: usize, a: &Args) -> Result<Vec<Vec<u8>>, String> {
    let f = &FUNS[i];
    let first = *HEADROOM.get_or_init(|| 8192);
    let mut caps = vec![first; f.outs];
    for round in 0..4 {
        let r = call(f, a, &caps, Place::Heap);
        if r.rc == 0 {
            let mut o = r.outs;
            for (o, l) in o.iter_mut().zip(&r.lens) {
                if *l < 0 || *l as usize > o.len() {
                    return Err(format!("{}: length {l} for a buffer of {} bytes", f.name, o.len()));
                }
                o.truncate(*l as usize);
            }
            if f.handle {
                o.push(r.handle.to_be_bytes().to_vec());
            }
            return Ok(o);
        }
        let more: Vec<c_int> = caps.iter().zip(&r.lens).map(|(c, l)| *c.max(l)).collect();
        if more == caps || round == 3 {
            return Err(format!("{}: {}", f.name, last_error()));
        }
        last_error();
        caps = more;
    }
    unreachable!()
}

pub fn last_error() -> String {
    let mut b = vec![0u8; 16384];
    let mut l = b.len() as c_int;
    let rc = unsafe { (api().get_last_error)(b.as_mut_ptr().cast(), &mut l) };
    if rc != 0 {
        return format!("get_last_error: {rc}");
    }
    b.truncate(l.max(0) as usize);
    String::from_utf8_lossy(&b).into_owned()
}

fn s(x: &str) -> Vec<u8> {
    x.as_bytes().to_vec()
}
fn opt(x: &[u8]) -> Option<Vec<u8>> {
    (!x.is_empty()).then(|| x.to_vec())
}

pub fn a_master(policy: &str) -> Args {
    Args { strs: vec![s(policy)], ..Default::default() }
}
pub fn a_user(msk: &[u8], access: &str, policy: &str) -> Args {
    Args { ins: vec![Some(msk.to_vec())], strs: vec![s(access), s(policy)], int: 0 }
}
pub fn a_rotate(attrs: &str, policy: &str) -> Args {
    Args { strs: vec![s(attrs), s(policy)], ..Default::default() }
}
pub fn a_enc_create(policy: &str, mpk: &[u8]) -> Args {
    Args { ins: vec![Some(mpk.to_vec())], strs: vec![s(policy)], int: 0 }
}
pub fn a_enc_cached(h: c_int, attrs: &str, uid: &[u8], ad: &[u8]) -> Args {
    Args { ins: vec![opt(uid), opt(ad)], strs: vec![s(attrs)], int: h }
}
pub fn a_enc(policy: &str, mpk: &[u8], attrs: &str, uid: &[u8], ad: &[u8]) -> Args {
    Args { ins: vec![Some(mpk.to_vec()), opt(uid), opt(ad)], strs: vec![s(policy), s(attrs)], int: 0 }
}
pub fn a_dec_create(uk: &[u8]) -> Args {
    Args { ins: vec![Some(uk.to_vec())], ..Default::default() }
}
pub fn a_dec_cached(h: c_int, header: &[u8]) -> Args {
    Args { ins: vec![Some(header.to_vec())], strs: vec![], int: h }
}
pub fn a_dec(header: &[u8], uk: &[u8]) -> Args {
    Args { ins: vec![Some(header.to_vec()), Some(uk.to_vec())], ..Default::default() }
}
pub fn a_block(key: &[u8], uid: &[u8], n: c_int, data: &[u8]) -> Args {
    Args { ins: vec![Some(key.to_vec()), opt(uid), Some(data.to_vec())], strs: vec![], int: n }
}

/// (private key, public key)
pub fn master_keys(policy: &str) -> Result<(Vec<u8>, Vec<u8>), String> {
    let b = get(MASTER, &a_master(policy))?.remove(0);
    split_master(&b).ok_or_else(|| "h_generate_master_keys: malformed output".into())
}
pub fn split_master(b: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let n = u32::from_be_bytes(b.get(..4)?.try_into().ok()?) as usize;
    Some((b.get(4..4 + n)?.to_vec(), b[4 + n..].to_vec()))
}
pub fn user_key(msk: &[u8], access: &str, policy: &str) -> Result<Vec<u8>, String> {
    Ok(get(USER, &a_user(msk, access, policy))?.remove(0))
}
pub fn rotate(attrs: &str, policy: &str) -> Result<String, String> {
    String::from_utf8(get(ROTATE, &a_rotate(attrs, policy))?.remove(0)).map_err(|e| e.to_string())
}
fn handle(o: Vec<Vec<u8>>) -> c_int {
    c_int::from_be_bytes(o[0][..].try_into().expect("handle"))
}
pub fn enc_create(policy: &str, mpk: &[u8]) -> Result<c_int, String> {
    get(ENC_CREATE, &a_enc_create(policy, mpk)).map(handle)
}
pub fn enc_destroy(h: c_int) -> c_int {
    unsafe { (api().h_aes_destroy_encryption_cache)(h) }
}
pub fn dec_create(uk: &[u8]) -> Result<c_int, String> {
    get(DEC_CREATE, &a_dec_create(uk)).map(handle)
}
pub fn dec_destroy(h: c_int) -> c_int {
    unsafe { (api().h_aes_destroy_decryption_cache)(h) }
}
/// (symmetric key, header)
pub type KeyHeader = (Vec<u8>, Vec<u8>);
/// (symmetric key, identifier, additional data)
pub type Clear = (Vec<u8>, Vec<u8>, Vec<u8>);

fn two(mut o: Vec<Vec<u8>>) -> KeyHeader {
    let b = o.pop().expect("header");
    (o.pop().expect("key"), b)
}
fn three(mut o: Vec<Vec<u8>>) -> Clear {
    let c = o.pop().expect("additional data");
    let b = o.pop().expect("identifier");
    (o.pop().expect("key"), b, c)
}
pub fn enc_cached(h: c_int, attrs: &str, uid: &[u8], ad: &[u8]) -> Result<KeyHeader, String> {
    get(ENC_CACHED, &a_enc_cached(h, attrs, uid, ad)).map(two)
}
pub fn enc_header(policy: &str, mpk: &[u8], attrs: &str, uid: &[u8], ad: &[u8]) -> Result<KeyHeader, String> {
    get(ENC, &a_enc(policy, mpk, attrs, uid, ad)).map(two)
}
pub fn dec_cached(h: c_int, header: &[u8]) -> Result<Clear, String> {
    get(DEC_CACHED, &a_dec_cached(h, header)).map(three)
}
pub fn dec_header(header: &[u8], uk: &[u8]) -> Result<Clear, String> {
    get(DEC, &a_dec(header, uk)).map(three)
}
pub fn enc_block(key: &[u8], uid: &[u8], n: c_int, data: &[u8]) -> Result<Vec<u8>, String> {
    Ok(get(BLOCK_ENC, &a_block(key, uid, n, data))?.remove(0))
}
pub fn dec_block(key: &[u8], uid: &[u8], n: c_int, data: &[u8]) -> Result<Vec<u8>, String> {
    Ok(get(BLOCK_DEC, &a_block(key, uid, n, data))?.remove(0))
}
pub fn header_size(b: &[u8]) -> c_int {
    unsafe { (api().h_get_encrypted_header_size)(b.as_ptr().cast(), b.len() as c_int) }
}
pub fn overhead() -> c_int {
    unsafe { (api().h_aes_symmetric_encryption_overhead)() }
}
