// ---------------------------------------------------------------------------------------------
// C24: signing options
// ---------------------------------------------------------------------------------------------
/// the list without every element equal to one of the first n names
pub open spec fn del_all(hs: Seq<Seq<u8>>, names: Seq<Seq<u8>>, n: int) -> Seq<Seq<u8>> decreases n {
    if n <= 0 { hs } else { seq_remove_all(del_all(hs, names, n - 1), names[n - 1]) }
}
