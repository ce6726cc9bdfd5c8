//! Small helpers shared by the demonstrations.
use crate::drive::*;
use crate::net::*;
use crate::reftls::*;

pub fn expect(ok: bool, what: &str) {
    if !ok {
        println!("BROKEN: {}", what);
        std::process::exit(1);
    }
}

/// A server that sends `flight` (raw records), then, once the client has finished, whatever `fin`
/// makes (raw records), then each of `after`, then ends the transport.
pub fn peer(cfg: Cfg, flight: Vec<u8>, mut fin: impl FnMut(&mut Server) -> Option<Vec<u8>> + 'static) -> Run {
    let mut stage = 0;
    let mut flight = Some(flight);
    world(cfg, move |s| match stage {
        0 => {
            if s.msgs.is_empty() {
                return Feed::Stall;
            }
            stage = 1;
            Feed::Bytes(flight.take().unwrap())
        }
        1 => match fin(s) {
            None => Feed::Eof,
            Some(f) => {
                stage = 2;
                Feed::Bytes(f)
            }
        },
        _ => Feed::Eof,
    })
}

/// ChangeCipherSpec and Finished as they should be.
pub fn good_fin(s: &mut Server) -> Option<Vec<u8>> {
    let m = s.finished()?;
    let mut f = rec(CCS, &[1]);
    f.extend(s.seal(HS, &m));
    Some(f)
}

pub fn flight_recs(cfg: &Cfg) -> Vec<u8> {
    recs(HS, &cfg.flight(), 1 << 14)
}

/// The description bytes of the alerts the client sent.
pub fn alerts(run: &Run) -> Vec<Vec<u8>> {
    run.sync();
    let s = run.server.borrow();
    s.alerts().into_iter().map(|a| a.1).collect()
}
