use crate::vp;
use crate::world::*;

#[no_mangle]
pub extern "C" fn h_smoke() {
    let o = vec![obj("rsync://h.example/repo/a/x.txt", b"hello"), obj("rsync://h.example/repo/b.txt", b"world")];
    let v = version(SA, 7, 2, o);
    v.serve();
    let c = Cfg::std();
    let e = run(&c);
    vp::check(e == vp::End::Ret(0), "run1");
    let p = published(&format!("{}/rrdp", vp::root()), BASE, "notification.xml", "C01");
    vp::check(p.is_some(), "published");
    vp::check(same_tree(&tree(&format!("{}/rsync/current", vp::root())), &objs_tree(&v.objs, false)), "tree");
}
#[no_mangle]
pub extern "C" fn h_smoke2() {
    let o = vec![obj("rsync://h.example/repo/a/x.txt", b"hello"), obj("rsync://h.example/repo/b.txt", b"world")];
    let s = vp::u64v("serial", 3, 1 << 62);
    let v = version(SA, s, 2, o);
    v.serve();
    let (cl, _) = sym_digits("cleanup", 3);
    let mut c = Cfg::std();
    c.cleanup = Some(cl);
    vp::clock(vp::u64v("t", T0, T0 + 3600));
    let e = run(&c);
    vp::check(e == vp::End::Ret(0), "run1");
    let p = published(&format!("{}/rrdp", vp::root()), BASE, "notification.xml", "C01");
    vp::check(p.is_some(), "published");
    vp::check(same_tree(&tree(&format!("{}/rsync/current", vp::root())), &objs_tree(&v.objs, false)), "tree");
}
