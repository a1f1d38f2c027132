SHAPE(0, T_<u8>)
SHAPE(1, T_<i32>)
SHAPE(2, T_<u64>)
SHAPE(3, T_<double>)
SHAPE(4, T_<bool>)
SHAPE(5, T_<Big>)
SHAPE(6, T_<Own>)
SHAPE(7, T_<Cpy>)
SHAPE(8, T_<Dft>)
SHAPE(9, Bs)
SHAPE(10, Tu<>)
SHAPE(11, Tu<T_<u8>>)
SHAPE(12, Tu<T_<Own>>)
SHAPE(13, Pr<T_<u8>, T_<u64>>)
SHAPE(14, Pr<T_<Own>, T_<Cpy>>)
SHAPE(15, Pr<Bs, T_<Dft>>)
SHAPE(16, Op<T_<u8>>)
SHAPE(17, Op<T_<Own>>)
SHAPE(18, Op<Bs>)
SHAPE(19, Op<Op<T_<Dft>>>)
SHAPE(20, Tu<T_<Big>, T_<u8>, T_<Big>>)
SHAPE(21, Tu<T_<Own>, T_<Own>, T_<Own>>)
SHAPE(22, Tu<T_<Cpy>, Bs, T_<Dft>, T_<u8>>)
SHAPE(23, Op<Tu<T_<u8>, Op<T_<Cpy>>, T_<Own>>>)
SHAPE(24, Tu<Op<T_<Own>>, Op<Bs>, Op<T_<Big>>>)
SHAPE(25, Pr<Op<T_<u64>>, Pr<T_<bool>, Op<T_<Own>>>>)
SHAPE(26, Op<Pr<Op<T_<i32>>, Op<Pr<T_<Own>, Bs>>>>)
SHAPE(27, Tu<Tu<>, Op<Tu<>>, T_<u8>>)
SHAPE(28, Tu<T_<u8>, T_<Own>, T_<i32>, Bs, T_<u64>, T_<Cpy>>)
SHAPE(29, Tu<T_<u8>, T_<u8>, T_<u8>, T_<u8>, T_<u8>, T_<Big>, T_<Own>, T_<Dft>, T_<Cpy>, Bs, T_<bool>, T_<double>>)
SHAPE(30, Op<Op<T_<Cpy>>>)
SHAPE(31, Tu<Tu<Op<T_<u8>>, Pr<T_<u64>, T_<Own>>, T_<i32>>, Bs>)
SHAPE(32, Tu<Tu<T_<double>>>)
SHAPE(33, Op<T_<double>>)
SHAPE(34, Pr<T_<Own>, T_<u64>>)
SHAPE(35, Op<T_<Big>>)
SHAPE(36, Pr<T_<Cpy>, Tu<Tu<T_<Own>, T_<u8>>, Pr<T_<Own>, Bs>>>)
SHAPE(37, Pr<Op<T_<double>>, Pr<Op<T_<Cpy>>, T_<Big>>>)
SHAPE(38, Tu<Tu<Op<T_<u64>>>, Op<T_<Big>>, Tu<Pr<T_<u64>, T_<u8>>>>)
SHAPE(39, Pr<Bs, Pr<Tu<>, Op<T_<Cpy>>>>)
SHAPE(40, Tu<Op<Pr<T_<u64>, T_<Own>>>>)
SHAPE(41, Tu<T_<Cpy>, Op<Pr<T_<Big>, T_<Cpy>>>, T_<Cpy>>)
SHAPE(42, Op<Pr<T_<Cpy>, T_<Dft>>>)
SHAPE(43, Pr<Pr<Pr<T_<Dft>, T_<bool>>, Pr<T_<Big>, T_<u64>>>, Tu<Pr<T_<bool>, T_<Cpy>>, T_<Dft>, Pr<T_<bool>, T_<Big>>>>)
SHAPE(44, Pr<Tu<Pr<T_<u64>, T_<Dft>>, Tu<T_<Cpy>, T_<bool>>, Op<T_<u64>>>, Op<Pr<Bs, T_<Dft>>>>)
SHAPE(45, Op<Tu<T_<Cpy>>>)
SHAPE(46, Tu<Tu<>>)
SHAPE(47, Tu<T_<u64>>)
SHAPE(48, Op<Pr<Tu<T_<double>, T_<double>, T_<Big>, T_<u8>>, Pr<T_<i32>, T_<Dft>>>>)
SHAPE(49, Tu<Tu<Pr<T_<bool>, T_<Big>>, Pr<Bs, T_<Dft>>>, Tu<Op<T_<double>>>, Op<Op<T_<Own>>>, Bs>)
SHAPE(50, Op<Op<Tu<T_<bool>, T_<Cpy>, T_<Own>>>>)
SHAPE(51, Tu<Op<Pr<T_<Big>, T_<bool>>>, Pr<Tu<T_<Cpy>, T_<double>, T_<bool>, T_<u8>>, Pr<T_<Cpy>, T_<Dft>>>, Tu<Tu<T_<bool>, T_<u64>, T_<bool>>, Bs, Op<T_<i32>>>, T_<u64>>)
SHAPE(52, Op<Op<T_<Big>>>)
SHAPE(53, Tu<T_<Own>, Pr<Op<T_<Own>>, Op<T_<bool>>>, Tu<Op<Bs>, T_<Cpy>>, Tu<Op<T_<Big>>>>)
SHAPE(54, Pr<Tu<>, Pr<Op<T_<Big>>, Tu<T_<Cpy>, T_<u8>, T_<i32>>>>)
SHAPE(55, Tu<Tu<Op<T_<u64>>>, T_<u64>, Tu<>, Tu<T_<Own>, Pr<Bs, Bs>, T_<Own>, Tu<>>>)
SHAPE(56, Pr<Pr<Tu<T_<u64>, Bs>, Op<T_<Dft>>>, Tu<T_<double>, T_<bool>>>)
SHAPE(57, Tu<Pr<T_<u8>, Tu<T_<u8>, T_<i32>, T_<i32>, T_<Dft>>>>)
SHAPE(58, Tu<Pr<T_<Dft>, T_<Own>>, T_<u64>, Pr<Tu<T_<double>, T_<u64>, Bs>, Tu<T_<Big>, Bs>>>)
SHAPE(59, Pr<T_<Big>, Op<Pr<T_<u8>, Bs>>>)
