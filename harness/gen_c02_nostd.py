T = "u8 u16 u32 u64 u128 i8 i16 i32 i64 i128".split()
for t in T:
    print("h!(o_%s, Option<%s>);" % (t, t))
    print("h!(a3_%s, [%s; 3]);" % (t, t))
for n in (1, 2, 4, 5, 8, 16):
    print("h!(an_u16_%d, [u16; %d]);" % (n, n))
for a, b in zip(T, T[3:] + T[:3]):
    print("h!(pr_%s_%s, (%s, %s));" % (a, b, a, b))
