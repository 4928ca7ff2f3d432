//! Stand-in for the NTP client: there is no network, so every request fails.
pub struct Packet {
    pub receive_timestamp: u64,
}
pub fn request(_: &str) -> std::io::Result<Packet> {
    Err(std::io::Error::other("no network"))
}
pub mod unix_time {
    pub struct Instant(i64, i32);
    impl From<u64> for Instant {
        fn from(x: u64) -> Self {
            Instant((x >> 32) as i64 - 2_208_988_800, ((x & 0xffff_ffff) * 1_000_000_000 >> 32) as i32)
        }
    }
    impl Instant {
        pub fn secs(&self) -> i64 {
            self.0
        }
        pub fn subsec_nanos(&self) -> i32 {
            self.1
        }
    }
}
