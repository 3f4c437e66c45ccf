"""(reserved) Rust-side models are listed in driver.cfg"""
