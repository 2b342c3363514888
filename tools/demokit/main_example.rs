mod kit;
use kit::*;
fn main() {
    let mut s = Session::ready(0);
    s.send(req(json!(1), "t/hold", json!({"k": 1})));
    let r = s.run();
    assert_eq!(find(&r, &json!(1)).unwrap()["result"], json!(1));
}
