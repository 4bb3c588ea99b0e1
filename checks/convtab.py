"""Conversions the public API offers (source:destination)."""
FROM = [tuple(p.split(":")) for p in """
f32x2:f64x2 f32x4:f64x4 f32x8:f64x8 i16x16:f32x16 i16x16:i32x16 i16x2:f32x2 i16x2:f64x2 i16x2:i128x2
i16x2:i32x2 i16x2:i64x2 i16x4:f32x4 i16x4:f64x4 i16x4:i128x4 i16x4:i32x4 i16x4:i64x4 i16x8:f32x8 i16x8:f64x8
i16x8:i32x8 i16x8:i64x8 i32x2:f64x2 i32x2:i128x2 i32x2:i64x2 i32x4:f64x4 i32x4:i128x4 i32x4:i64x4 i32x8:f64x8
i32x8:i64x8 i64x2:i128x2 i64x4:i128x4 i8x16:f32x16 i8x16:i16x16 i8x16:i32x16 i8x2:f32x2 i8x2:f64x2
i8x2:i128x2 i8x2:i16x2 i8x2:i32x2 i8x2:i64x2 i8x32:i16x32 i8x4:f32x4 i8x4:f64x4 i8x4:i128x4 i8x4:i16x4
i8x4:i32x4 i8x4:i64x4 i8x8:f32x8 i8x8:f64x8 i8x8:i16x8 i8x8:i32x8 i8x8:i64x8 m128x2:m16x2 m128x2:m32x2
m128x2:m64x2 m128x2:m8x2 m16x16:m32x16 m16x16:m8x16 m16x2:m128x2 m16x2:m32x2 m16x2:m64x2 m16x2:m8x2
m16x4:m128x4 m16x4:m32x4 m16x4:m64x4 m16x4:m8x4 m16x8:m32x8 m16x8:m64x8 m16x8:m8x8 m32x2:m128x2 m32x2:m16x2
m32x2:m64x2 m32x2:m8x2 m32x4:m128x4 m32x4:m16x4 m32x4:m64x4 m32x4:m8x4 m32x8:m16x8 m32x8:m64x8 m32x8:m8x8
m64x2:m128x2 m64x2:m16x2 m64x2:m32x2 m64x2:m8x2 m64x4:m128x4 m64x4:m16x4 m64x4:m32x4 m64x4:m8x4 m8x16:m16x16
m8x16:m32x16 m8x2:m128x2 m8x2:m16x2 m8x2:m32x2 m8x2:m64x2 m8x32:m16x32 m8x4:m128x4 m8x4:m16x4 m8x4:m32x4
m8x4:m64x4 m8x8:m16x8 m8x8:m32x8 m8x8:m64x8 u16x16:f32x16 u16x16:i32x16 u16x16:u32x16 u16x2:f32x2 u16x2:f64x2
u16x2:i128x2 u16x2:i32x2 u16x2:i64x2 u16x2:u128x2 u16x2:u32x2 u16x2:u64x2 u16x4:f32x4 u16x4:f64x4
u16x4:i128x4 u16x4:i32x4 u16x4:i64x4 u16x4:u128x4 u16x4:u32x4 u16x4:u64x4 u16x8:f32x8 u16x8:f64x8 u16x8:i32x8
u16x8:i64x8 u16x8:u32x8 u16x8:u64x8 u32x2:f64x2 u32x2:i128x2 u32x2:i64x2 u32x2:u128x2 u32x2:u64x2 u32x4:f64x4
u32x4:i128x4 u32x4:i64x4 u32x4:u128x4 u32x4:u64x4 u32x8:f64x8 u32x8:i64x8 u32x8:u64x8 u64x2:i128x2
u64x2:u128x2 u64x4:i128x4 u64x4:u128x4 u8x16:f32x16 u8x16:i16x16 u8x16:i32x16 u8x16:u16x16 u8x16:u32x16
u8x2:f32x2 u8x2:f64x2 u8x2:i128x2 u8x2:i16x2 u8x2:i32x2 u8x2:i64x2 u8x2:u128x2 u8x2:u16x2 u8x2:u32x2
u8x2:u64x2 u8x32:i16x32 u8x32:u16x32 u8x4:f32x4 u8x4:f64x4 u8x4:i128x4 u8x4:i16x4 u8x4:i32x4 u8x4:i64x4
u8x4:u128x4 u8x4:u16x4 u8x4:u32x4 u8x4:u64x4 u8x8:f32x8 u8x8:f64x8 u8x8:i16x8 u8x8:i32x8 u8x8:i64x8
u8x8:u16x8 u8x8:u32x8 u8x8:u64x8
""".split()]

BITS = [tuple(p.split(":")) for p in """
f32x16:f64x8 f32x16:i128x4 f32x16:i16x32 f32x16:i32x16 f32x16:i64x8 f32x16:i8x64 f32x16:u128x4 f32x16:u16x32
f32x16:u32x16 f32x16:u64x8 f32x16:u8x64 f32x2:i16x4 f32x2:i32x2 f32x2:i8x8 f32x2:u16x4 f32x2:u32x2 f32x2:u8x8
f32x4:f64x2 f32x4:i128x1 f32x4:i16x8 f32x4:i32x4 f32x4:i64x2 f32x4:i8x16 f32x4:u128x1 f32x4:u16x8 f32x4:u32x4
f32x4:u64x2 f32x4:u8x16 f32x8:f64x4 f32x8:i128x2 f32x8:i16x16 f32x8:i32x8 f32x8:i64x4 f32x8:i8x32
f32x8:u128x2 f32x8:u16x16 f32x8:u32x8 f32x8:u64x4 f32x8:u8x32 f64x2:f32x4 f64x2:i128x1 f64x2:i16x8
f64x2:i32x4 f64x2:i64x2 f64x2:i8x16 f64x2:u128x1 f64x2:u16x8 f64x2:u32x4 f64x2:u64x2 f64x2:u8x16 f64x4:f32x8
f64x4:i128x2 f64x4:i16x16 f64x4:i32x8 f64x4:i64x4 f64x4:i8x32 f64x4:u128x2 f64x4:u16x16 f64x4:u32x8
f64x4:u64x4 f64x4:u8x32 f64x8:f32x16 f64x8:i128x4 f64x8:i16x32 f64x8:i32x16 f64x8:i64x8 f64x8:i8x64
f64x8:u128x4 f64x8:u16x32 f64x8:u32x16 f64x8:u64x8 f64x8:u8x64 i128x1:f32x4 i128x1:f64x2 i128x1:i16x8
i128x1:i32x4 i128x1:i64x2 i128x1:i8x16 i128x1:u128x1 i128x1:u16x8 i128x1:u32x4 i128x1:u64x2 i128x1:u8x16
i128x2:f32x8 i128x2:f64x4 i128x2:i16x16 i128x2:i32x8 i128x2:i64x4 i128x2:i8x32 i128x2:u128x2 i128x2:u16x16
i128x2:u32x8 i128x2:u64x4 i128x2:u8x32 i128x4:f32x16 i128x4:f64x8 i128x4:i16x32 i128x4:i32x16 i128x4:i64x8
i128x4:i8x64 i128x4:u128x4 i128x4:u16x32 i128x4:u32x16 i128x4:u64x8 i128x4:u8x64 i16x16:f32x8 i16x16:f64x4
i16x16:i128x2 i16x16:i32x8 i16x16:i64x4 i16x16:i8x32 i16x16:u128x2 i16x16:u16x16 i16x16:u32x8 i16x16:u64x4
i16x16:u8x32 i16x2:i8x4 i16x2:u16x2 i16x2:u8x4 i16x32:f32x16 i16x32:f64x8 i16x32:i128x4 i16x32:i32x16
i16x32:i64x8 i16x32:i8x64 i16x32:u128x4 i16x32:u16x32 i16x32:u32x16 i16x32:u64x8 i16x32:u8x64 i16x4:f32x2
i16x4:i32x2 i16x4:i8x8 i16x4:u16x4 i16x4:u32x2 i16x4:u8x8 i16x8:f32x4 i16x8:f64x2 i16x8:i128x1 i16x8:i32x4
i16x8:i64x2 i16x8:i8x16 i16x8:u128x1 i16x8:u16x8 i16x8:u32x4 i16x8:u64x2 i16x8:u8x16 i32x16:f32x16
i32x16:f64x8 i32x16:i128x4 i32x16:i16x32 i32x16:i64x8 i32x16:i8x64 i32x16:u128x4 i32x16:u16x32 i32x16:u32x16
i32x16:u64x8 i32x16:u8x64 i32x2:f32x2 i32x2:i16x4 i32x2:i8x8 i32x2:u16x4 i32x2:u32x2 i32x2:u8x8 i32x4:f32x4
i32x4:f64x2 i32x4:i128x1 i32x4:i16x8 i32x4:i64x2 i32x4:i8x16 i32x4:u128x1 i32x4:u16x8 i32x4:u32x4 i32x4:u64x2
i32x4:u8x16 i32x8:f32x8 i32x8:f64x4 i32x8:i128x2 i32x8:i16x16 i32x8:i64x4 i32x8:i8x32 i32x8:u128x2
i32x8:u16x16 i32x8:u32x8 i32x8:u64x4 i32x8:u8x32 i64x2:f32x4 i64x2:f64x2 i64x2:i128x1 i64x2:i16x8 i64x2:i32x4
i64x2:i8x16 i64x2:u128x1 i64x2:u16x8 i64x2:u32x4 i64x2:u64x2 i64x2:u8x16 i64x4:f32x8 i64x4:f64x4 i64x4:i128x2
i64x4:i16x16 i64x4:i32x8 i64x4:i8x32 i64x4:u128x2 i64x4:u16x16 i64x4:u32x8 i64x4:u64x4 i64x4:u8x32
i64x8:f32x16 i64x8:f64x8 i64x8:i128x4 i64x8:i16x32 i64x8:i32x16 i64x8:i8x64 i64x8:u128x4 i64x8:u16x32
i64x8:u32x16 i64x8:u64x8 i64x8:u8x64 i8x16:f32x4 i8x16:f64x2 i8x16:i128x1 i8x16:i16x8 i8x16:i32x4 i8x16:i64x2
i8x16:u128x1 i8x16:u16x8 i8x16:u32x4 i8x16:u64x2 i8x16:u8x16 i8x2:u8x2 i8x32:f32x8 i8x32:f64x4 i8x32:i128x2
i8x32:i16x16 i8x32:i32x8 i8x32:i64x4 i8x32:u128x2 i8x32:u16x16 i8x32:u32x8 i8x32:u64x4 i8x32:u8x32 i8x4:i16x2
i8x4:u16x2 i8x4:u8x4 i8x64:f32x16 i8x64:f64x8 i8x64:i128x4 i8x64:i16x32 i8x64:i32x16 i8x64:i64x8 i8x64:u128x4
i8x64:u16x32 i8x64:u32x16 i8x64:u64x8 i8x64:u8x64 i8x8:f32x2 i8x8:i16x4 i8x8:i32x2 i8x8:u16x4 i8x8:u32x2
i8x8:u8x8 m128x1:f32x4 m128x1:f64x2 m128x1:i128x1 m128x1:i16x8 m128x1:i32x4 m128x1:i64x2 m128x1:i8x16
m128x1:m16x8 m128x1:m32x4 m128x1:m64x2 m128x1:m8x16 m128x1:u128x1 m128x1:u16x8 m128x1:u32x4 m128x1:u64x2
m128x1:u8x16 m128x2:f32x8 m128x2:f64x4 m128x2:i128x2 m128x2:i16x16 m128x2:i32x8 m128x2:i64x4 m128x2:i8x32
m128x2:m16x16 m128x2:m32x8 m128x2:m64x4 m128x2:m8x32 m128x2:u128x2 m128x2:u16x16 m128x2:u32x8 m128x2:u64x4
m128x2:u8x32 m128x4:f32x16 m128x4:f64x8 m128x4:i128x4 m128x4:i16x32 m128x4:i32x16 m128x4:i64x8 m128x4:i8x64
m128x4:m16x32 m128x4:m32x16 m128x4:m64x8 m128x4:m8x64 m128x4:u128x4 m128x4:u16x32 m128x4:u32x16 m128x4:u64x8
m128x4:u8x64 m16x16:f32x8 m16x16:f64x4 m16x16:i128x2 m16x16:i16x16 m16x16:i32x8 m16x16:i64x4 m16x16:i8x32
m16x16:m8x32 m16x16:u128x2 m16x16:u16x16 m16x16:u32x8 m16x16:u64x4 m16x16:u8x32 m16x2:i16x2 m16x2:i8x4
m16x2:m8x4 m16x2:u16x2 m16x2:u8x4 m16x32:f32x16 m16x32:f64x8 m16x32:i128x4 m16x32:i16x32 m16x32:i32x16
m16x32:i64x8 m16x32:i8x64 m16x32:m8x64 m16x32:u128x4 m16x32:u16x32 m16x32:u32x16 m16x32:u64x8 m16x32:u8x64
m16x4:f32x2 m16x4:i16x4 m16x4:i32x2 m16x4:i8x8 m16x4:m8x8 m16x4:u16x4 m16x4:u32x2 m16x4:u8x8 m16x8:f32x4
m16x8:f64x2 m16x8:i128x1 m16x8:i16x8 m16x8:i32x4 m16x8:i64x2 m16x8:i8x16 m16x8:m8x16 m16x8:u128x1 m16x8:u16x8
m16x8:u32x4 m16x8:u64x2 m16x8:u8x16 m32x16:f32x16 m32x16:f64x8 m32x16:i128x4 m32x16:i16x32 m32x16:i32x16
m32x16:i64x8 m32x16:i8x64 m32x16:m16x32 m32x16:m8x64 m32x16:u128x4 m32x16:u16x32 m32x16:u32x16 m32x16:u64x8
m32x16:u8x64 m32x2:f32x2 m32x2:i16x4 m32x2:i32x2 m32x2:i8x8 m32x2:m16x4 m32x2:m8x8 m32x2:u16x4 m32x2:u32x2
m32x2:u8x8 m32x4:f32x4 m32x4:f64x2 m32x4:i128x1 m32x4:i16x8 m32x4:i32x4 m32x4:i64x2 m32x4:i8x16 m32x4:m16x8
m32x4:m8x16 m32x4:u128x1 m32x4:u16x8 m32x4:u32x4 m32x4:u64x2 m32x4:u8x16 m32x8:f32x8 m32x8:f64x4 m32x8:i128x2
m32x8:i16x16 m32x8:i32x8 m32x8:i64x4 m32x8:i8x32 m32x8:m16x16 m32x8:m8x32 m32x8:u128x2 m32x8:u16x16
m32x8:u32x8 m32x8:u64x4 m32x8:u8x32 m64x2:f32x4 m64x2:f64x2 m64x2:i128x1 m64x2:i16x8 m64x2:i32x4 m64x2:i64x2
m64x2:i8x16 m64x2:m16x8 m64x2:m32x4 m64x2:m8x16 m64x2:u128x1 m64x2:u16x8 m64x2:u32x4 m64x2:u64x2 m64x2:u8x16
m64x4:f32x8 m64x4:f64x4 m64x4:i128x2 m64x4:i16x16 m64x4:i32x8 m64x4:i64x4 m64x4:i8x32 m64x4:m16x16
m64x4:m32x8 m64x4:m8x32 m64x4:u128x2 m64x4:u16x16 m64x4:u32x8 m64x4:u64x4 m64x4:u8x32 m64x8:f32x16
m64x8:f64x8 m64x8:i128x4 m64x8:i16x32 m64x8:i32x16 m64x8:i64x8 m64x8:i8x64 m64x8:m16x32 m64x8:m32x16
m64x8:m8x64 m64x8:u128x4 m64x8:u16x32 m64x8:u32x16 m64x8:u64x8 m64x8:u8x64 m8x16:f32x4 m8x16:f64x2
m8x16:i128x1 m8x16:i16x8 m8x16:i32x4 m8x16:i64x2 m8x16:i8x16 m8x16:u128x1 m8x16:u16x8 m8x16:u32x4 m8x16:u64x2
m8x16:u8x16 m8x2:i8x2 m8x2:u8x2 m8x32:f32x8 m8x32:f64x4 m8x32:i128x2 m8x32:i16x16 m8x32:i32x8 m8x32:i64x4
m8x32:i8x32 m8x32:u128x2 m8x32:u16x16 m8x32:u32x8 m8x32:u64x4 m8x32:u8x32 m8x4:i16x2 m8x4:i8x4 m8x4:u16x2
m8x4:u8x4 m8x64:f32x16 m8x64:f64x8 m8x64:i128x4 m8x64:i16x32 m8x64:i32x16 m8x64:i64x8 m8x64:i8x64
m8x64:u128x4 m8x64:u16x32 m8x64:u32x16 m8x64:u64x8 m8x64:u8x64 m8x8:f32x2 m8x8:i16x4 m8x8:i32x2 m8x8:i8x8
m8x8:u16x4 m8x8:u32x2 m8x8:u8x8 u128x1:f32x4 u128x1:f64x2 u128x1:i128x1 u128x1:i16x8 u128x1:i32x4
u128x1:i64x2 u128x1:i8x16 u128x1:u16x8 u128x1:u32x4 u128x1:u64x2 u128x1:u8x16 u128x2:f32x8 u128x2:f64x4
u128x2:i128x2 u128x2:i16x16 u128x2:i32x8 u128x2:i64x4 u128x2:i8x32 u128x2:u16x16 u128x2:u32x8 u128x2:u64x4
u128x2:u8x32 u128x4:f32x16 u128x4:f64x8 u128x4:i128x4 u128x4:i16x32 u128x4:i32x16 u128x4:i64x8 u128x4:i8x64
u128x4:u16x32 u128x4:u32x16 u128x4:u64x8 u128x4:u8x64 u16x16:f32x8 u16x16:f64x4 u16x16:i128x2 u16x16:i16x16
u16x16:i32x8 u16x16:i64x4 u16x16:i8x32 u16x16:u128x2 u16x16:u32x8 u16x16:u64x4 u16x16:u8x32 u16x2:i16x2
u16x2:i8x4 u16x2:u8x4 u16x32:f32x16 u16x32:f64x8 u16x32:i128x4 u16x32:i16x32 u16x32:i32x16 u16x32:i64x8
u16x32:i8x64 u16x32:u128x4 u16x32:u32x16 u16x32:u64x8 u16x32:u8x64 u16x4:f32x2 u16x4:i16x4 u16x4:i32x2
u16x4:i8x8 u16x4:u32x2 u16x4:u8x8 u16x8:f32x4 u16x8:f64x2 u16x8:i128x1 u16x8:i16x8 u16x8:i32x4 u16x8:i64x2
u16x8:i8x16 u16x8:u128x1 u16x8:u32x4 u16x8:u64x2 u16x8:u8x16 u32x16:f32x16 u32x16:f64x8 u32x16:i128x4
u32x16:i16x32 u32x16:i32x16 u32x16:i64x8 u32x16:i8x64 u32x16:u128x4 u32x16:u16x32 u32x16:u64x8 u32x16:u8x64
u32x2:f32x2 u32x2:i16x4 u32x2:i32x2 u32x2:i8x8 u32x2:u16x4 u32x2:u8x8 u32x4:f32x4 u32x4:f64x2 u32x4:i128x1
u32x4:i16x8 u32x4:i32x4 u32x4:i64x2 u32x4:i8x16 u32x4:u128x1 u32x4:u16x8 u32x4:u64x2 u32x4:u8x16 u32x8:f32x8
u32x8:f64x4 u32x8:i128x2 u32x8:i16x16 u32x8:i32x8 u32x8:i64x4 u32x8:i8x32 u32x8:u128x2 u32x8:u16x16
u32x8:u64x4 u32x8:u8x32 u64x2:f32x4 u64x2:f64x2 u64x2:i128x1 u64x2:i16x8 u64x2:i32x4 u64x2:i64x2 u64x2:i8x16
u64x2:u128x1 u64x2:u16x8 u64x2:u32x4 u64x2:u8x16 u64x4:f32x8 u64x4:f64x4 u64x4:i128x2 u64x4:i16x16
u64x4:i32x8 u64x4:i64x4 u64x4:i8x32 u64x4:u128x2 u64x4:u16x16 u64x4:u32x8 u64x4:u8x32 u64x8:f32x16
u64x8:f64x8 u64x8:i128x4 u64x8:i16x32 u64x8:i32x16 u64x8:i64x8 u64x8:i8x64 u64x8:u128x4 u64x8:u16x32
u64x8:u32x16 u64x8:u8x64 u8x16:f32x4 u8x16:f64x2 u8x16:i128x1 u8x16:i16x8 u8x16:i32x4 u8x16:i64x2 u8x16:i8x16
u8x16:u128x1 u8x16:u16x8 u8x16:u32x4 u8x16:u64x2 u8x2:i8x2 u8x32:f32x8 u8x32:f64x4 u8x32:i128x2 u8x32:i16x16
u8x32:i32x8 u8x32:i64x4 u8x32:i8x32 u8x32:u128x2 u8x32:u16x16 u8x32:u32x8 u8x32:u64x4 u8x4:i16x2 u8x4:i8x4
u8x4:u16x2 u8x64:f32x16 u8x64:f64x8 u8x64:i128x4 u8x64:i16x32 u8x64:i32x16 u8x64:i64x8 u8x64:i8x64
u8x64:u128x4 u8x64:u16x32 u8x64:u32x16 u8x64:u64x8 u8x8:f32x2 u8x8:i16x4 u8x8:i32x2 u8x8:i8x8 u8x8:u16x4
u8x8:u32x2
""".split()]
