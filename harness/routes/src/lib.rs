pub use chomp_macro as _;
