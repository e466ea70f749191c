//! Environment model of tokio: a single-threaded executor that polls the main
//! future on the calling thread, and inert stdin / stdout handles.
pub use tokio_macros::{main_rt as main_current_thread, main, test};

pub mod runtime {
    use std::future::Future;
    use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

    pub fn waker() -> Waker {
        fn clone(_: *const ()) -> RawWaker { RawWaker::new(std::ptr::null(), &VT) }
        fn noop(_: *const ()) {}
        static VT: RawWakerVTable = RawWakerVTable::new(clone, noop, noop, noop);
        unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
    }

    pub struct Builder(());
    impl Builder {
        pub fn new_multi_thread() -> Self { Builder(()) }
        pub fn new_current_thread() -> Self { Builder(()) }
        pub fn enable_all(&mut self) -> &mut Self { self }
        pub fn enable_io(&mut self) -> &mut Self { self }
        pub fn enable_time(&mut self) -> &mut Self { self }
        pub fn worker_threads(&mut self, _n: usize) -> &mut Self { self }
        pub fn max_blocking_threads(&mut self, _n: usize) -> &mut Self { self }
        pub fn thread_name(&mut self, _n: impl Into<String>) -> &mut Self { self }
        pub fn build(&mut self) -> std::io::Result<Runtime> { Ok(Runtime(())) }
    }
    pub struct Runtime(());
    impl Runtime {
        pub fn new() -> std::io::Result<Runtime> { Ok(Runtime(())) }
        pub fn block_on<F: Future>(&self, fut: F) -> F::Output {
            let waker = waker();
            let mut cx = Context::from_waker(&waker);
            let mut fut = Box::pin(fut);
            loop {
                if let Poll::Ready(r) = fut.as_mut().poll(&mut cx) { return r; }
            }
        }
    }
}

pub mod io {
    #[derive(Debug)]
    pub struct Stdin(());
    #[derive(Debug)]
    pub struct Stdout(());
    #[derive(Debug)]
    pub struct Stderr(());
    pub fn stdin() -> Stdin { Stdin(()) }
    pub fn stdout() -> Stdout { Stdout(()) }
    pub fn stderr() -> Stderr { Stderr(()) }
}

/// Suspends once.
struct Yield(bool);
impl std::future::Future for Yield {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 { return std::task::Poll::Ready(()); }
        self.0 = true;
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    }
}

pub mod task {
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    /// Lets other tasks run.
    pub async fn yield_now() { crate::Yield(false).await }

    #[derive(Debug)]
    pub struct JoinError(());
    impl std::fmt::Display for JoinError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("task failed") }
    }
    impl std::error::Error for JoinError {}
    /// A task runs as far as it gets when it is spawned, and whenever it is awaited.
    pub struct JoinHandle<T>(Option<Pin<Box<dyn Future<Output = T> + Send>>>, Option<T>);
    impl<T> Unpin for JoinHandle<T> {}
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            if let Some(x) = self.1.take() { return Poll::Ready(Ok(x)); }
            match self.0.as_mut().expect("polled after completion").as_mut().poll(cx) {
                Poll::Ready(x) => { self.0 = None; Poll::Ready(Ok(x)) }
                Poll::Pending => Poll::Pending,
            }
        }
    }
    impl<T> JoinHandle<T> {
        pub fn abort(&self) {}
    }
    impl<T> Drop for JoinHandle<T> {
        fn drop(&mut self) {
            // detached: goes on
            if let Some(f) = self.0.take() { std::mem::forget(f); }
        }
    }
    pub fn spawn<F>(f: F) -> JoinHandle<F::Output> where F: Future + Send + 'static, F::Output: Send + 'static {
        let mut f: Pin<Box<dyn Future<Output = F::Output> + Send>> = Box::pin(f);
        for _ in 0..4 {
            if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&crate::runtime::waker())) { return JoinHandle(None, Some(x)); }
        }
        JoinHandle(Some(f), None)
    }
    pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R> where F: FnOnce() -> R + Send + 'static, R: Send + 'static {
        JoinHandle(Some(Box::pin(async move { yield_now().await; f() })), None)
    }
    pub fn block_in_place<F, R>(f: F) -> R where F: FnOnce() -> R { f() }
}
pub use task::spawn;

pub mod time {
    pub use std::time::{Duration, Instant};
    /// Time passes between two polls.
    pub async fn sleep(_d: Duration) { crate::Yield(false).await }
}

/// Locks that suspend instead of blocking.
pub mod sync {
    use std::cell::UnsafeCell;
    use std::future::poll_fn;
    use std::ops::{Deref, DerefMut};
    use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
    use std::task::Poll;

    /// -1 = written, n = read by n
    #[derive(Default)]
    struct State(AtomicIsize);
    impl State {
        fn read(&self) -> bool { let n = self.0.load(SeqCst); if n < 0 { return false; } self.0.store(n + 1, SeqCst); true }
        fn write(&self) -> bool { if self.0.load(SeqCst) != 0 { return false; } self.0.store(-1, SeqCst); true }
        fn done(&self) { let n = self.0.load(SeqCst); self.0.store(if n < 0 { 0 } else { n - 1 }, SeqCst); }
    }
    #[derive(Debug)]
    pub struct TryLockError(());
    #[derive(Default)]
    pub struct RwLock<T: ?Sized>(State, UnsafeCell<T>);
    unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
    impl<T: std::fmt::Debug> std::fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("RwLock") }
    }
    impl<T> RwLock<T> {
        pub const fn new(x: T) -> Self { RwLock(State(AtomicIsize::new(0)), UnsafeCell::new(x)) }
        pub fn into_inner(self) -> T { self.1.into_inner() }
    }
    impl<T: ?Sized> RwLock<T> {
        pub async fn read(&self) -> RwLockReadGuard<'_, T> {
            poll_fn(|_| if self.0.read() { Poll::Ready(()) } else { Poll::Pending }).await;
            RwLockReadGuard(self)
        }
        pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
            poll_fn(|_| if self.0.write() { Poll::Ready(()) } else { Poll::Pending }).await;
            RwLockWriteGuard(self)
        }
        pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>, TryLockError> { if self.0.read() { Ok(RwLockReadGuard(self)) } else { Err(TryLockError(())) } }
        pub fn try_write(&self) -> Result<RwLockWriteGuard<'_, T>, TryLockError> { if self.0.write() { Ok(RwLockWriteGuard(self)) } else { Err(TryLockError(())) } }
        pub fn get_mut(&mut self) -> &mut T { self.1.get_mut() }
    }
    pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
    pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0 .1.get() } } }
    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0 .1.get() } } }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.0 .1.get() } } }
    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> { fn drop(&mut self) { self.0 .0.done() } }
    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> { fn drop(&mut self) { self.0 .0.done() } }

    #[derive(Default)]
    pub struct Mutex<T: ?Sized>(RwLock<T>);
    impl<T: std::fmt::Debug> std::fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Mutex") }
    }
    pub type MutexGuard<'a, T> = RwLockWriteGuard<'a, T>;
    impl<T> Mutex<T> {
        pub const fn new(x: T) -> Self { Mutex(RwLock::new(x)) }
        pub fn into_inner(self) -> T { self.0.into_inner() }
    }
    impl<T: ?Sized> Mutex<T> {
        pub async fn lock(&self) -> MutexGuard<'_, T> { self.0.write().await }
        pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> { self.0.try_write() }
        pub fn get_mut(&mut self) -> &mut T { self.0.get_mut() }
    }

    /// Permits, as a counter.
    #[derive(Debug)]
    pub struct Semaphore(AtomicIsize);
    #[derive(Debug)]
    pub struct SemaphorePermit<'a>(&'a Semaphore);
    #[derive(Debug)]
    pub struct AcquireError(());
    impl Semaphore {
        pub const fn new(n: usize) -> Self { Semaphore(AtomicIsize::new(n as isize)) }
        pub async fn acquire(&self) -> Result<SemaphorePermit<'_>, AcquireError> {
            poll_fn(|_| {
                let n = self.0.load(SeqCst);
                if n > 0 { self.0.store(n - 1, SeqCst); Poll::Ready(()) } else { Poll::Pending }
            }).await;
            Ok(SemaphorePermit(self))
        }
    }
    impl Drop for SemaphorePermit<'_> { fn drop(&mut self) { let n = self.0 .0.load(SeqCst); self.0 .0.store(n + 1, SeqCst); } }
}

/// Awaits all of its arguments.
#[macro_export]
macro_rules! join {
    ($($f:expr),* $(,)?) => { ($($f.await,)*) };
}
