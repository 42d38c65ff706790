ID="R03-ack-forgotten"; PROP="R03"
NEEDS="an acknowledgement whose transmission fails, with no further packet arriving afterwards (the sender's window is full and only resends could follow)"
BREAKS="The acknowledgement is marked as transmitted before the transmission is attempted; when it fails it is no longer due, so it is never tried again."
EDITS=[("mrp/src/stream.rs","""            if self.should_ack {
                header.ack_num = Some(self.ack_seqnum());
            }
""","""            if self.should_ack {
                header.ack_num = Some(self.ack_seqnum());
                self.should_ack = false;
            }
"""),("mrp/src/stream.rs","""                Ok(_) => {
                    self.should_ack = false;
                    Ok(Some(self.ack_seqnum()))
                }""","""                Ok(_) => Ok(Some(self.ack_seqnum())),""")]
DEPS='mrp = { path = "@WS@/mrp" }\nanyhow = "1"\n'
MAIN='''use mrp::*;
fn main() {
    let mut s = MrpStream::<u32, PacketWrapper<Vec<u8>>>::with_capacity_limit(4);
    let h = MrpHeader::new(Some(1), None);
    s.receive(&h, PacketWrapper(h.clone(), vec![1])).unwrap();
    assert!(s.try_send_ack(|_| Err(anyhow::anyhow!("network down"))).is_err());
    let mut sent = None;
    s.try_send_ack(|h| { sent = h.ack_num; Ok(()) }).unwrap();
    assert_eq!(sent, Some(2), "the acknowledgement is still due after its transmission failed");
}
'''
