//! Left out: packages are not packed here.
