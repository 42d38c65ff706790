//! Protobuf helpers the group call relies on.
use ringrtc::protobuf::group_call::{DeviceToSfu, MrpHeader, SfuToDevice};
use vpcommon::*;

/// Concatenation of the content of fragments (what the reliable stream's reassembly calls).
pub fn ext(args: &Args) {
    let mut t = args.out();
    let mut r = Rng::new(args.num("seed", 1));
    for _ in 0..args.num("n", 100) {
        let n = r.below(5) as usize;
        // header: 0 none, 1 without num_packets, 2 with num_packets; content: null or bytes
        let hdr = r.below(3);
        let np = r.below(6) as u32;
        let mut bytes = || -> Option<Vec<u8>> {
            if r.chance(1, 4) { None } else { Some((0..r.below(4)).map(|_| r.below(256) as u8).collect()) }
        };
        let first = bytes();
        let rest: Vec<Option<Vec<u8>>> = (0..n).map(|_| bytes()).collect();
        let rest_hdr: Vec<u64> = (0..n).map(|_| r.below(3)).collect();
        let chunks = r.range(1, 2) as usize;
        let header = |k: u64, i: u64| match k {
            0 => None,
            1 => Some(MrpHeader { seqnum: Some(i), ..Default::default() }),
            _ => Some(MrpHeader { seqnum: Some(i), num_packets: Some(np), ..Default::default() }),
        };
        let enc = |c: &Option<Vec<u8>>| c.as_ref().map_or(json!([-1]), |v| json!(v));
        let res = catch(|| {
            let mut a = SfuToDevice { mrp_header: header(hdr, 1), content: first.clone(), ..Default::default() };
            let mut b = DeviceToSfu { mrp_header: header(hdr, 1), content: first.clone(), ..Default::default() };
            let ra: Vec<_> = rest.iter().enumerate()
                .map(|(i, c)| SfuToDevice { mrp_header: header(rest_hdr[i], 2 + i as u64), content: c.clone(), ..Default::default() }).collect();
            let rb: Vec<_> = rest.iter().enumerate()
                .map(|(i, c)| DeviceToSfu { mrp_header: header(rest_hdr[i], 2 + i as u64), content: c.clone(), ..Default::default() }).collect();
            let cut = if chunks == 1 { n } else { n / 2 };
            a.extend(ra[..cut].to_vec());
            a.extend(ra[cut..].to_vec());
            b.extend(rb[..cut].to_vec());
            b.extend(rb[cut..].to_vec());
            (enc(&a.content), enc(&b.content))
        });
        t.ev(json!({"ev": "Reset"}));
        match res {
            Ok((a, b)) => t.ev(json!({"ev": "Extend", "hdr": hdr, "first": enc(&first), "rest": rest.iter().map(enc).collect::<Vec<_>>(),
                                      "obs": {"sfu": a, "dev": b}})),
            Err(m) => t.ev(json!({"ev": "Panic", "obs": {"panic": m}})),
        }
    }
}
