//! Stand-in for the openssl crate: RSA is replaced by a recorder of what is encrypted, so that
//! the clear text handed to the cipher can be compared with the protocol's requirement.
use std::sync::Mutex;

pub mod error {
    #[derive(Debug, Clone)]
    pub struct ErrorStack;
    impl std::fmt::Display for ErrorStack {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "openssl error")
        }
    }
    impl std::error::Error for ErrorStack {}
}

pub struct Log {
    pub pem: Vec<u8>,
    pub plain: Vec<u8>,
    pub padding: u8,
}
pub static LOG: Mutex<Vec<Log>> = Mutex::new(Vec::new());

pub mod pkey {
    pub struct Public;
    pub struct Private;
}

pub mod rsa {
    use super::error::ErrorStack;
    use super::*;

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Padding(pub u8);
    impl Padding {
        pub const PKCS1: Padding = Padding(1);
        pub const NONE: Padding = Padding(3);
        pub const PKCS1_OAEP: Padding = Padding(4);
    }

    pub struct Rsa<T> {
        pem: Vec<u8>,
        _p: std::marker::PhantomData<T>,
    }
    impl Rsa<pkey::Public> {
        /// Accepts any PEM except one that starts with '!'.
        pub fn public_key_from_pem(pem: &[u8]) -> Result<Rsa<pkey::Public>, ErrorStack> {
            if pem.first() == Some(&b'!') {
                return Err(ErrorStack);
            }
            Ok(Rsa { pem: pem.to_vec(), _p: std::marker::PhantomData })
        }
    }
    impl<T> Rsa<T> {
        pub fn size(&self) -> u32 {
            32
        }
        /// The "cipher text" is a fixed 32-byte frame around a marker; the clear text is recorded.
        pub fn public_encrypt(&self, from: &[u8], to: &mut [u8], padding: Padding) -> Result<usize, ErrorStack> {
            if to.len() < 32 {
                panic!("buffer smaller than the key size");
            }
            LOG.lock().unwrap().push(Log { pem: self.pem.clone(), plain: from.to_vec(), padding: padding.0 });
            for i in 0..32 {
                to[i] = 0xA0 ^ i as u8;
            }
            Ok(32)
        }
    }
}
