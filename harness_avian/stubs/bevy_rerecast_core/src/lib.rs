pub use rerecast;
