//! Stand-in for fd-lock: an advisory lock of an open file, held by way of flock as the original does.
use std::io;
use std::ops::{Deref, DerefMut};
use std::os::fd::AsRawFd;

extern "C" {
    fn flock(fd: i32, operation: i32) -> i32;
}

const SHARED: i32 = 1;
const EXCLUSIVE: i32 = 2;
const NOT_BLOCKING: i32 = 4;
const UNLOCK: i32 = 8;

fn lock(fd: i32, operation: i32) -> io::Result<()> {
    match unsafe { flock(fd, operation) } {
        0 => Ok(()),
        _ => Err(io::Error::last_os_error()),
    }
}

pub struct RwLock<T: AsRawFd> {
    inner: T,
}

pub struct RwLockWriteGuard<'a, T: AsRawFd>(&'a mut T);
pub struct RwLockReadGuard<'a, T: AsRawFd>(&'a T);

impl<T: AsRawFd> RwLock<T> {
    pub fn new(inner: T) -> Self {
        Self { inner }
    }

    pub fn write(&mut self) -> io::Result<RwLockWriteGuard<'_, T>> {
        lock(self.inner.as_raw_fd(), EXCLUSIVE)?;
        Ok(RwLockWriteGuard(&mut self.inner))
    }

    pub fn try_write(&mut self) -> io::Result<RwLockWriteGuard<'_, T>> {
        lock(self.inner.as_raw_fd(), EXCLUSIVE | NOT_BLOCKING)?;
        Ok(RwLockWriteGuard(&mut self.inner))
    }

    pub fn read(&self) -> io::Result<RwLockReadGuard<'_, T>> {
        lock(self.inner.as_raw_fd(), SHARED)?;
        Ok(RwLockReadGuard(&self.inner))
    }

    pub fn try_read(&self) -> io::Result<RwLockReadGuard<'_, T>> {
        lock(self.inner.as_raw_fd(), SHARED | NOT_BLOCKING)?;
        Ok(RwLockReadGuard(&self.inner))
    }

    pub fn into_inner(self) -> T {
        self.inner
    }
}

impl<T: AsRawFd> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0
    }
}

impl<T: AsRawFd> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0
    }
}

impl<T: AsRawFd> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        lock(self.0.as_raw_fd(), UNLOCK).ok();
    }
}

impl<T: AsRawFd> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0
    }
}

impl<T: AsRawFd> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        lock(self.0.as_raw_fd(), UNLOCK).ok();
    }
}
