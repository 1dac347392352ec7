T = "u8 u16 u32 u64 u128 i8 i16 i32 i64 i128".split()
W = dict(u8=1, u16=2, u32=4, u64=8, u128=16, i8=1, i16=2, i32=4, i64=8, i128=16)
for t in T:
    print("h!(o_%s, Option<%s>);" % (t, t))
    print("h!(a3_%s, [%s; 3]);" % (t, t))
    print("h!(v_%s_n%d, Vec<%s>);" % (t, 3 * W[t] + W[t] // 2 + 1, t))
for n in (1, 2, 4, 5, 8, 16, 33, 100):
    print("h!(an_u16_%d, [u16; %d]);" % (n, n))
for a, b in zip(T, T[3:] + T[:3]):
    print("h!(pr_%s_%s, (%s, %s));" % (a, b, a, b))
# long containers
print("h!(vl_u8_n300, Vec<u8>);")
print("h!(vl_u16_n280, Vec<u16>);")
print("h!(al_p2, [P2; 20]);")
print("h!(al_pair, [(u16, u8); 40]);")
print("h!(al_nest, [[u16; 9]; 9]);")
