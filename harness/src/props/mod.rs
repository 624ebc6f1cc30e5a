use crate::fw::Prop;

mod c_aead;
mod c_big;
#[cfg(feature = "tls")]
mod c_ct;
mod c_ec;
mod c_field;
mod c_hash;
#[cfg(feature = "tls")]
mod t_abi;
#[cfg(feature = "tls")]
mod t_cert;
#[cfg(feature = "tls")]
mod t_hello;
#[cfg(feature = "tls")]
mod t_hist;
#[cfg(feature = "tls")]
mod t_io;
#[cfg(feature = "tls")]
mod t_keys;
#[cfg(feature = "tls")]
mod t_many;
#[cfg(feature = "tls")]
mod t_mem;
#[cfg(feature = "tls")]
mod t_peer;
#[cfg(feature = "tls")]
mod t_policy;

pub fn all() -> Vec<Prop> {
    #[allow(unused_mut)]
    let mut l = vec![c_hash::C01, c_hash::C02, c_aead::C03, c_aead::C04, c_aead::C05, c_big::C06, c_big::C07, c_field::C08, c_ec::C09, c_ec::C10];
    #[cfg(feature = "tls")]
    l.extend([c_ct::C11, c_ct::C12, t_hello::T01, t_hello::T02, t_keys::T03, t_io::T04, t_io::T05, t_peer::T06, t_peer::T07, t_policy::T08, t_hist::T09, t_policy::T10, t_hist::T11, t_hist::T12, t_cert::T13, t_abi::T14, t_mem::T15, t_many::T16]);
    l
}
