pub mod driver;
pub mod lang;
pub mod model;
pub mod p01;
pub mod p02;
pub mod p03;
pub mod p04;
pub mod p05;
pub mod p06;
pub mod p07;
pub mod p08;
pub mod p09;
pub mod p10;
pub mod p12;
pub mod p13;
pub mod p14;
pub mod report;
pub mod scale;
pub mod util;
