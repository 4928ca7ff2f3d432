//! Stand-in for `directories-next`: no platform directories.
use std::path::Path;
pub struct ProjectDirs(std::path::PathBuf);
impl ProjectDirs {
    pub fn from(_: &str, _: &str, _: &str) -> Option<Self> {
        None
    }
    pub fn config_dir(&self) -> &Path {
        &self.0
    }
    pub fn data_local_dir(&self) -> &Path {
        &self.0
    }
}
