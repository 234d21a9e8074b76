//! Reference encoders, written from the documented formats and independent of the code under test.
pub mod anlz;
pub mod dsql;
pub mod page;
pub mod row;
pub mod setting;
pub mod xml;
pub mod export;
pub mod mutate;
