// Written by tools_shapes.py.
shapes! {
    TransmuteAbi<u8>;
    TransmuteAbi<i32>;
    TransmuteAbi<u64>;
    TransmuteAbi<f64>;
    TransmuteAbi<bool>;
    TransmuteAbi<Big>;
    TransmuteAbi<Own>;
    TransmuteAbi<Cpy>;
    TransmuteAbi<Dft>;
    BoxedCppStringAbi;
    ();
    (TransmuteAbi<u8>,);
    (TransmuteAbi<Own>,);
    (TransmuteAbi<u8>, TransmuteAbi<u64>,);
    (TransmuteAbi<Own>, TransmuteAbi<Cpy>,);
    (BoxedCppStringAbi, TransmuteAbi<Dft>,);
    OptionAbi<TransmuteAbi<u8>>;
    OptionAbi<TransmuteAbi<Own>>;
    OptionAbi<BoxedCppStringAbi>;
    OptionAbi<OptionAbi<TransmuteAbi<Dft>>>;
    (TransmuteAbi<Big>, TransmuteAbi<u8>, TransmuteAbi<Big>,);
    (TransmuteAbi<Own>, TransmuteAbi<Own>, TransmuteAbi<Own>,);
    (TransmuteAbi<Cpy>, BoxedCppStringAbi, TransmuteAbi<Dft>, TransmuteAbi<u8>,);
    OptionAbi<(TransmuteAbi<u8>, OptionAbi<TransmuteAbi<Cpy>>, TransmuteAbi<Own>,)>;
    (OptionAbi<TransmuteAbi<Own>>, OptionAbi<BoxedCppStringAbi>, OptionAbi<TransmuteAbi<Big>>,);
    (OptionAbi<TransmuteAbi<u64>>, (TransmuteAbi<bool>, OptionAbi<TransmuteAbi<Own>>,),);
    OptionAbi<(OptionAbi<TransmuteAbi<i32>>, OptionAbi<(TransmuteAbi<Own>, BoxedCppStringAbi,)>,)>;
    ((), OptionAbi<()>, TransmuteAbi<u8>,);
    (TransmuteAbi<u8>, TransmuteAbi<Own>, TransmuteAbi<i32>, BoxedCppStringAbi, TransmuteAbi<u64>, TransmuteAbi<Cpy>,);
    (TransmuteAbi<u8>, TransmuteAbi<u8>, TransmuteAbi<u8>, TransmuteAbi<u8>, TransmuteAbi<u8>, TransmuteAbi<Big>, TransmuteAbi<Own>, TransmuteAbi<Dft>, TransmuteAbi<Cpy>, BoxedCppStringAbi, TransmuteAbi<bool>, TransmuteAbi<f64>,);
    OptionAbi<OptionAbi<TransmuteAbi<Cpy>>>;
    ((OptionAbi<TransmuteAbi<u8>>, (TransmuteAbi<u64>, TransmuteAbi<Own>,), TransmuteAbi<i32>,), BoxedCppStringAbi,);
    ((TransmuteAbi<f64>,),);
    OptionAbi<TransmuteAbi<f64>>;
    (TransmuteAbi<Own>, TransmuteAbi<u64>,);
    OptionAbi<TransmuteAbi<Big>>;
    (TransmuteAbi<Cpy>, ((TransmuteAbi<Own>, TransmuteAbi<u8>,), (TransmuteAbi<Own>, BoxedCppStringAbi,),),);
    (OptionAbi<TransmuteAbi<f64>>, (OptionAbi<TransmuteAbi<Cpy>>, TransmuteAbi<Big>,),);
    ((OptionAbi<TransmuteAbi<u64>>,), OptionAbi<TransmuteAbi<Big>>, ((TransmuteAbi<u64>, TransmuteAbi<u8>,),),);
    (BoxedCppStringAbi, ((), OptionAbi<TransmuteAbi<Cpy>>,),);
    (OptionAbi<(TransmuteAbi<u64>, TransmuteAbi<Own>,)>,);
    (TransmuteAbi<Cpy>, OptionAbi<(TransmuteAbi<Big>, TransmuteAbi<Cpy>,)>, TransmuteAbi<Cpy>,);
    OptionAbi<(TransmuteAbi<Cpy>, TransmuteAbi<Dft>,)>;
    (((TransmuteAbi<Dft>, TransmuteAbi<bool>,), (TransmuteAbi<Big>, TransmuteAbi<u64>,),), ((TransmuteAbi<bool>, TransmuteAbi<Cpy>,), TransmuteAbi<Dft>, (TransmuteAbi<bool>, TransmuteAbi<Big>,),),);
    (((TransmuteAbi<u64>, TransmuteAbi<Dft>,), (TransmuteAbi<Cpy>, TransmuteAbi<bool>,), OptionAbi<TransmuteAbi<u64>>,), OptionAbi<(BoxedCppStringAbi, TransmuteAbi<Dft>,)>,);
    OptionAbi<(TransmuteAbi<Cpy>,)>;
    ((),);
    (TransmuteAbi<u64>,);
    OptionAbi<((TransmuteAbi<f64>, TransmuteAbi<f64>, TransmuteAbi<Big>, TransmuteAbi<u8>,), (TransmuteAbi<i32>, TransmuteAbi<Dft>,),)>;
    (((TransmuteAbi<bool>, TransmuteAbi<Big>,), (BoxedCppStringAbi, TransmuteAbi<Dft>,),), (OptionAbi<TransmuteAbi<f64>>,), OptionAbi<OptionAbi<TransmuteAbi<Own>>>, BoxedCppStringAbi,);
    OptionAbi<OptionAbi<(TransmuteAbi<bool>, TransmuteAbi<Cpy>, TransmuteAbi<Own>,)>>;
    (OptionAbi<(TransmuteAbi<Big>, TransmuteAbi<bool>,)>, ((TransmuteAbi<Cpy>, TransmuteAbi<f64>, TransmuteAbi<bool>, TransmuteAbi<u8>,), (TransmuteAbi<Cpy>, TransmuteAbi<Dft>,),), ((TransmuteAbi<bool>, TransmuteAbi<u64>, TransmuteAbi<bool>,), BoxedCppStringAbi, OptionAbi<TransmuteAbi<i32>>,), TransmuteAbi<u64>,);
    OptionAbi<OptionAbi<TransmuteAbi<Big>>>;
    (TransmuteAbi<Own>, (OptionAbi<TransmuteAbi<Own>>, OptionAbi<TransmuteAbi<bool>>,), (OptionAbi<BoxedCppStringAbi>, TransmuteAbi<Cpy>,), (OptionAbi<TransmuteAbi<Big>>,),);
    ((), (OptionAbi<TransmuteAbi<Big>>, (TransmuteAbi<Cpy>, TransmuteAbi<u8>, TransmuteAbi<i32>,),),);
    ((OptionAbi<TransmuteAbi<u64>>,), TransmuteAbi<u64>, (), (TransmuteAbi<Own>, (BoxedCppStringAbi, BoxedCppStringAbi,), TransmuteAbi<Own>, (),),);
    (((TransmuteAbi<u64>, BoxedCppStringAbi,), OptionAbi<TransmuteAbi<Dft>>,), (TransmuteAbi<f64>, TransmuteAbi<bool>,),);
    ((TransmuteAbi<u8>, (TransmuteAbi<u8>, TransmuteAbi<i32>, TransmuteAbi<i32>, TransmuteAbi<Dft>,),),);
    ((TransmuteAbi<Dft>, TransmuteAbi<Own>,), TransmuteAbi<u64>, ((TransmuteAbi<f64>, TransmuteAbi<u64>, BoxedCppStringAbi,), (TransmuteAbi<Big>, BoxedCppStringAbi,),),);
    (TransmuteAbi<Big>, OptionAbi<(TransmuteAbi<u8>, BoxedCppStringAbi,)>,);
}
