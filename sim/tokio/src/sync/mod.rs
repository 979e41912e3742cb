//! The real tokio channels, with preemption points around the operations.
pub use real_tokio::sync::{
	broadcast, futures, watch, AcquireError, Barrier, BarrierWaitResult, MappedMutexGuard, Mutex, MutexGuard, Notify, OnceCell, OwnedMutexGuard,
	OwnedRwLockReadGuard, OwnedSemaphorePermit, RwLock, RwLockReadGuard, RwLockWriteGuard, Semaphore, SemaphorePermit, SetError, TryAcquireError,
	TryLockError,
};
pub mod mpsc;
pub mod oneshot;
