//! One test per genuine defect that a `fix:` commit in /repo repairs: each fails on the base commit and
//! passes on the repaired tree. run.sh appends this module to a scratch copy.
use super::test::SinkMock;
use super::*;
use crate::store::indexing_buffer::*;

fn dec_varint(b: &[u8]) -> (u64, usize) {
    varint::decode_varint(b).unwrap()
}
/// (payload, positions of the non-null rows, number of blocks) of the i32 blocks
fn read_i32(sink: &SinkMock, nullable: bool) -> Vec<Vec<i32>> {
    sink.blocks
        .iter()
        .map(|b| {
            let d = b.data();
            let (len, n) = dec_varint(d);
            let _ = nullable;
            d[n..n + len as usize]
                .chunks(4)
                .map(|c| i32::from_ne_bytes([c[0], c[1], c[2], c[3]]))
                .collect()
        })
        .collect()
}

#[test]
fn d01_bitmap_clear_keeps_stale_bits() {
    let mut b = Bitmap::new();
    b.append(true);
    b.clear();
    b.append(false);
    assert!(!b.is_set(0));
}
#[test]
fn d02_bitmap_small_capacity() {
    let mut b = Bitmap::with_capacity(4);
    b.append(true);
    assert!(b.is_set(0));
}
#[tokio::test]
async fn d03_primitive_topping_up() {
    let mut e = raw::primitive_enc::Encoder::<i32>::new(100, false);
    let mut s = SinkMock::new();
    let mut a = Int32Buffer::new(false);
    for i in 0..10 {
        a.append(i);
    }
    let mut b = Int32Buffer::new(false);
    for i in 10..100 {
        b.append(i);
    }
    e.encode(&a, &mut s).await.unwrap();
    e.encode(&b, &mut s).await.unwrap();
    BlockEncoder::<Int32Buffer, SinkMock>::flush(&mut e, &mut s).await.unwrap();
    let got: Vec<i32> = read_i32(&s, false).concat();
    assert_eq!(got, (0..100).collect::<Vec<_>>());
}
#[tokio::test]
async fn d04_binary_second_chunk() {
    let mut e = raw::binary_enc::Encoder::new(10, false);
    let mut s = SinkMock::new();
    let mut a = BinaryBuffer::new(false);
    for _ in 0..6 {
        a.append(b"12345");
    }
    e.encode(&a, &mut s).await.unwrap();
    assert_eq!(s.blocks.len(), 3);
}
#[tokio::test]
async fn d05_row_ids() {
    let mut e = raw::primitive_enc::Encoder::<i32>::new(100, true);
    let mut s = SinkMock::new();
    let mut a = Int32Buffer::new(true);
    for i in 0..75 {
        a.append(i);
    }
    e.encode(&a, &mut s).await.unwrap();
    let rows: Vec<u32> = s.blocks.iter().map(|b| b.row()).collect();
    assert_eq!(rows, vec![24, 49, 74]);
}
#[test]
fn d06_offsets_more_than_one_packed_block() {
    let mut dst = Vec::new();
    offsets::OffsetEncoder::new().encode(&mut vec![3; 200], &mut dst);
    assert_eq!(dst[0], 2);
}
#[test]
fn d07_offsets_trim() {
    use bitpacking::{BitPacker, BitPacker4x};
    let mut dst = Vec::new();
    offsets::OffsetEncoder::new().encode(&mut vec![1, 7], &mut dst);
    let bits = dst[0];
    let mut packed = dst[1..].to_vec();
    packed.resize(512, 0);
    let mut out = vec![0u32; 128];
    BitPacker4x::new().decompress(&packed, &mut out, bits);
    assert_eq!(&out[..2], &[1, 7]);
}
#[tokio::test]
async fn d08_flush_twice() {
    let mut e = raw::primitive_enc::Encoder::<i32>::new(100, false);
    let mut s = SinkMock::new();
    let mut a = Int32Buffer::new(false);
    a.append(1);
    e.encode(&a, &mut s).await.unwrap();
    BlockEncoder::<Int32Buffer, SinkMock>::flush(&mut e, &mut s).await.unwrap();
    BlockEncoder::<Int32Buffer, SinkMock>::flush(&mut e, &mut s).await.unwrap();
    assert_eq!(s.blocks.len(), 1);
}
#[tokio::test]
async fn d09_trailing_nulls() {
    // rows: 1 NULL | NULL NULL | 2
    let mut e = raw::primitive_enc::Encoder::<i32>::new(100, true);
    let mut s = SinkMock::new();
    let mut a = Int32Buffer::new(true);
    a.append(1);
    a.append_null();
    let mut n = Int32Buffer::new(true);
    n.append_null();
    n.append_null();
    let mut b = Int32Buffer::new(true);
    b.append(2);
    e.encode(&a, &mut s).await.unwrap();
    e.encode(&n, &mut s).await.unwrap();
    e.encode(&b, &mut s).await.unwrap();
    BlockEncoder::<Int32Buffer, SinkMock>::flush(&mut e, &mut s).await.unwrap();
    assert_eq!(s.blocks[0].row(), 4);
    let d = s.blocks[0].data();
    let mut pos = vec![0u32; 2];
    bitmap_rle::decode(&d[9..], &mut pos);
    assert_eq!(pos, vec![0, 4]);
}
#[tokio::test]
async fn d09b_trailing_nulls_binary() {
    let mut e = raw::binary_enc::Encoder::new(4, true);
    let mut s = SinkMock::new();
    let mut n = BinaryBuffer::new(true);
    n.append_null();
    let mut a = BinaryBuffer::new(true);
    a.append(b"12345");
    a.append_null();
    let mut b = BinaryBuffer::new(true);
    b.append(b"12345");
    b.append_null();
    b.append_null();
    e.encode(&n, &mut s).await.unwrap();
    e.encode(&a, &mut s).await.unwrap();
    e.encode(&b, &mut s).await.unwrap();
    BlockEncoder::<BinaryBuffer, SinkMock>::flush(&mut e, &mut s).await.unwrap();
    let rows: Vec<u32> = s.blocks.iter().map(|b| b.row()).collect();
    assert_eq!(rows, vec![2, 5]);
}
