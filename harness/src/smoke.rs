use super::{sym, util::*};
pub fn smoke() {
    let d: Vec<u8> = (0..2).map(|_| sym::byte("d", b'0', b'9')).collect();
    let r = idl(format!("protocol P {{ record R {{ long f = {}; }} }}", sym::text(d.clone())));
    match r {
        Ok(o) => {
            let v = o.json["types"][0]["fields"][0]["default"].as_i64();
            sym::observe(v.unwrap_or(-1) as u64);
            sym::reach("ok");
        }
        Err(_) => sym::reach("err"),
    }
}
