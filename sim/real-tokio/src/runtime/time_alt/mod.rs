pub(crate) mod context;
pub(super) use context::{LocalContext, TempLocalContext};

pub(crate) mod cancellation_queue;

mod entry;
pub(crate) use entry::Handle as EntryHandle;
use entry::{CancellationQueueEntry, Entry, RegistrationQueueEntry, WakeQueueEntry};

mod registration_queue;
pub(crate) use registration_queue::RegistrationQueue;

mod timer;
pub(crate) use timer::Timer;

mod wheel;
pub(super) use wheel::Wheel;

mod wake_queue;
pub(crate) use wake_queue::WakeQueue;

#[cfg(test)]
mod tests;
