#![cfg_attr(not(feature = "full"), allow(dead_code))]

//! Yield points for improved cooperative scheduling.
//!
//! Documentation for this can be found in the [`tokio::task`] module.
//!
//! [`tokio::task`]: crate::task.

// ```ignore
// # use tokio_stream::{Stream, StreamExt};
// async fn drop_all<I: Stream + Unpin>(mut input: I) {
//     while let Some(_) = input.next().await {
//         tokio::coop::proceed().await;
//     }
// }
// ```
//
// The `proceed` future will coordinate with the executor to make sure that
// every so often control is yielded back to the executor so it can run other
// tasks.
//
// # Placing yield points
//
// Voluntary yield points should be placed _after_ at least some work has been
// done. If they are not, a future sufficiently deep in the task hierarchy may
// end up _never_ getting to run because of the number of yield points that
// inevitably appear before it is reached. In general, you will want yield
// points to only appear in "leaf" futures -- those that do not themselves poll
// other futures. By doing this, you avoid double-counting each iteration of
// the outer future against the cooperating budget.


// Model checker: every leaf operation of a task passes through here.
pub(crate) fn budget<R>(f: impl FnOnce() -> R) -> R { f() }
pub(crate) fn with_unconstrained<R>(f: impl FnOnce() -> R) -> R { f() }
pub(crate) fn has_budget_remaining() -> bool { true }

use std::cell::Cell;
use std::task::{Context, Poll};

#[must_use]
pub(crate) struct RestoreOnPending(Cell<bool>);

impl RestoreOnPending {
    pub(crate) fn made_progress(&self) {
        self.0.set(true);
    }
}

impl Drop for RestoreOnPending {
    fn drop(&mut self) {
        if !self.0.get() {
            mccore::coop_restore();
        }
    }
}

#[inline]
pub(crate) fn poll_proceed(cx: &mut Context<'_>) -> Poll<RestoreOnPending> {
    if mccore::coop_take("leaf") {
        Poll::Ready(RestoreOnPending(Cell::new(false)))
    } else {
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
