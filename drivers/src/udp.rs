//! Drives a real vru-udp node through its public API, as the plan says.
mod sim;
use std::sync::{atomic::{AtomicBool, Ordering}, Arc};
use std::{thread, time::Duration};
use vru_udp::{Command, Error, Event, LocalCommand, Node, NodeRef};

fn show(e: &Event) -> String {
    let errno = |e: &std::io::Error| match e.raw_os_error() {
        Some(n) => n.to_string(),
        None => format!("kind:{:?}", e.kind()),
    };
    match e {
        Event::Error(Error::ReadSocket(e)) => format!("read {}", errno(e)),
        Event::Error(Error::FrameSize(a, n)) => format!("size {} {}", a, n),
        Event::Error(Error::ConnectionFailed(a)) => format!("failed {}", a),
        Event::Error(Error::WriteTo(a, e)) => format!("writeto {} {}", a, errno(e)),
        Event::Info(s) => format!("info {}", s),
        other => format!("other {:?}", other),
    }
}
/// asks the stream every now and then instead of waiting for it
fn collect_polling((r, ns): (NodeRef, u64)) {
    loop {
        match r.try_recv() {
            Ok(Some(e)) => sim::log(&format!("ev {}", show(&e))),
            Ok(None) => thread::sleep(Duration::from_nanos(ns)),
            Err(_) => {
                sim::log("disconnected");
                sim::log(match r.recv() {
                    Err(_) => "closed",
                    Ok(_) => "event-after-close",
                });
                return;
            }
        }
    }
}
fn collect(r: NodeRef) {
    loop {
        match r.recv() {
            Ok(e) => sim::log(&format!("ev {}", show(&e))),
            Err(_) => {
                sim::log("disconnected");
                // a closed stream stays closed
                sim::log(match r.try_recv() {
                    Err(_) => "closed",
                    Ok(None) => "reopened",
                    Ok(Some(_)) => "event-after-close",
                });
                return;
            }
        }
    }
}
fn main() {
    let ops = sim::input();
    let running = Arc::new(AtomicBool::new(true));
    let (pk, sk) = sim::keys(1);
    let (node, node_ref) = match Node::spawn(sk, pk, 7000, running.clone()) {
        Ok(x) => x,
        Err(e) => {
            sim::log(&format!("spawn-error {:?}", e.raw_os_error()));
            return;
        }
    };
    sim::log("spawned");
    let mut node = Some(node);
    let mut node_ref = Some(node_ref);
    let mut collector = None;
    if !ops.iter().any(|o| o[0] == "dropref") {
        let r = node_ref.take().unwrap();
        collector = Some(match ops.iter().find(|o| o[0] == "polling") {
            Some(o) => sim::thread("collector", (r, o[1].parse().unwrap()), collect_polling),
            None => sim::thread("collector", r, collect),
        });
    }
    for (i, o) in ops.iter().enumerate() {
        sim::log(&format!("op {} {}", i, o.join(" ")));
        match o[0].as_str() {
            "connect" => {
                if let Some(n) = &node {
                    n.command(Command::Connect { peer_pi: sim::identity(o[2].parse().unwrap()), address: o[1].parse().unwrap() })
                }
            }
            "local" => {
                if let Some(n) = &node {
                    n.command(Command::Local { destination: sim::identity(o[1].parse().unwrap()), command: LocalCommand::SendText("\u{e9}x".repeat(o[2].parse::<usize>().unwrap() / 3)) })
                }
            }
            "sleep" => thread::sleep(Duration::from_nanos(o[1].parse().unwrap())),
            "mark" => sim::mark(),
            "dropref" => drop(node_ref.take()),
            "clear" => running.store(false, Ordering::Release),
            "join" => {
                if let Some(n) = node.take() {
                    n.join();
                }
            }
            "dropnode" => drop(node.take()),
            "polling" => (),
            x => panic!("driver: unknown operation {}", x),
        }
        sim::log(&format!("ret {}", i));
    }
    if let Some(c) = collector {
        c.join().unwrap();
    }
    sim::log("end");
}
