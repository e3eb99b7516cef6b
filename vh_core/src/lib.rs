//! Helpers shared by the per-property monitors.
