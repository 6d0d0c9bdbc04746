//! A stand-in for the part of the `failure` 0.1 API that /repo/src is written against.
pub use failure_derive::Fail;
use std::any::Any;
use std::fmt::{self, Debug, Display};

pub trait Fail: Display + Debug + Send + Sync + 'static {
    fn cause(&self) -> Option<&dyn Fail> {
        None
    }
}
trait AnyFail: Fail {
    fn any(&self) -> &dyn Any;
    fn into_any(self: Box<Self>) -> Box<dyn Any>;
    fn fail(&self) -> &dyn Fail;
}
impl<T: Fail> AnyFail for T {
    fn any(&self) -> &dyn Any {
        self
    }
    fn into_any(self: Box<Self>) -> Box<dyn Any> {
        self
    }
    fn fail(&self) -> &dyn Fail {
        self
    }
}
pub struct Error(Box<dyn AnyFail>);
impl<F: Fail> From<F> for Error {
    fn from(f: F) -> Error {
        Error(Box::new(f))
    }
}
impl Error {
    pub fn as_fail(&self) -> &dyn Fail {
        self.0.fail()
    }
    pub fn downcast<T: Fail>(self) -> Result<T, Error> {
        if self.0.any().is::<T>() {
            Ok(*self.0.into_any().downcast::<T>().unwrap())
        } else {
            Err(self)
        }
    }
    pub fn downcast_ref<T: Fail>(&self) -> Option<&T> {
        self.0.any().downcast_ref()
    }
}
impl Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        Debug::fmt(self.0.fail(), f)
    }
}
impl Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        Display::fmt(self.0.fail(), f)
    }
}
#[derive(Debug)]
struct Message(String);
impl Display for Message {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl Fail for Message {}
pub fn err_msg<D: Display>(d: D) -> Error {
    Message(d.to_string()).into()
}
#[macro_export]
macro_rules! format_err {
    ($($t:tt)*) => { $crate::err_msg(format!($($t)*)) };
}
#[macro_export]
macro_rules! bail {
    ($($t:tt)*) => { return Err($crate::format_err!($($t)*)) };
}
pub type Fallible<T> = Result<T, Error>;
