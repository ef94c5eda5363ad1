fn main() {
    for (n, f) in xml_dom::all() {
        println!("{}\t{}", n, f());
    }
}
