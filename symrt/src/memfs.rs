//! Files held in memory, so that forked paths never share a file on disk.
use std::collections::HashMap;
use std::io::{self, Read, Write};
use std::path::{Path, PathBuf};

static mut FILES: Option<HashMap<PathBuf, Vec<u8>>> = None;
fn files() -> &'static mut HashMap<PathBuf, Vec<u8>> {
    unsafe { FILES.get_or_insert_with(HashMap::new) }
}
fn missing() -> io::Error {
    io::Error::new(io::ErrorKind::NotFound, "no such file")
}

#[derive(Debug)]
pub struct File {
    path: PathBuf,
    pos: usize,
}
impl File {
    pub fn create<P: AsRef<Path>>(p: P) -> io::Result<File> {
        files().insert(p.as_ref().into(), vec![]);
        Ok(File { path: p.as_ref().into(), pos: 0 })
    }
    pub fn open<P: AsRef<Path>>(p: P) -> io::Result<File> {
        if !files().contains_key(p.as_ref()) {
            return Err(missing());
        }
        Ok(File { path: p.as_ref().into(), pos: 0 })
    }
    pub fn sync_all(&self) -> io::Result<()> {
        Ok(())
    }
}
impl Read for File {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let d = files().get(&self.path).ok_or_else(missing)?;
        let n = b.len().min(d.len().saturating_sub(self.pos));
        b[..n].copy_from_slice(&d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Write for File {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        files().get_mut(&self.path).ok_or_else(missing)?.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
pub fn read<P: AsRef<Path>>(p: P) -> io::Result<Vec<u8>> {
    files().get(p.as_ref()).cloned().ok_or_else(missing)
}
pub fn read_to_string<P: AsRef<Path>>(p: P) -> io::Result<String> {
    String::from_utf8(read(p)?).map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "not text"))
}
pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> io::Result<()> {
    files().insert(p.as_ref().into(), c.as_ref().into());
    Ok(())
}
pub fn remove_file<P: AsRef<Path>>(p: P) -> io::Result<()> {
    files().remove(p.as_ref()).map(|_| ()).ok_or_else(missing)
}
