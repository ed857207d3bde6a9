//! Stand-in for dyn-clone: the same interface, implemented the same way.
mod sealed { pub trait Sealed {} impl<T: Clone> Sealed for T {} impl Sealed for str {} impl<T: Clone> Sealed for [T] {} pub struct Private; }
pub trait DynClone: sealed::Sealed {
    #[doc(hidden)]
    fn __clone_box(&self, _: __Private) -> *mut ();
}
#[doc(hidden)]
pub struct __Private(());
impl<T: Clone> DynClone for T {
    fn __clone_box(&self, _: __Private) -> *mut () { Box::<T>::into_raw(Box::new(self.clone())) as *mut () }
}
pub fn clone_box<T: ?Sized + DynClone>(t: &T) -> Box<T> {
    let mut fat_ptr = t as *const T;
    unsafe {
        let data_ptr = &mut fat_ptr as *mut *const T as *mut *mut ();
        *data_ptr = <T as DynClone>::__clone_box(t, __Private(()));
        Box::from_raw(fat_ptr as *mut T)
    }
}
#[macro_export]
macro_rules! clone_trait_object {
    ($t:path) => {
        impl<'clone> Clone for Box<dyn $t + 'clone> {
            fn clone(&self) -> Self { $crate::clone_box(&**self) }
        }
        impl<'clone> Clone for Box<dyn $t + Send + 'clone> {
            fn clone(&self) -> Self { $crate::clone_box(&**self) }
        }
    };
}
