//! The simulated application: real rustful routers, filters and a real `Server`, configured
//! and driven by a scenario. Compiled with the same instrumentation as rustful.
extern crate anymap;
extern crate hyper;
extern crate rustful;
extern crate simproto;

pub mod filters;
pub mod ops;
mod routers;
mod tls;

use simproto::*;

use rustful::server::{Global, Host, KeepAlive};
use rustful::server::Listening;
use rustful::{Context, Response, Server};
use std::net::SocketAddr;

pub static mut SC: Option<&'static Scenario> = None;

pub fn sc() -> &'static Scenario {
    unsafe { SC.expect("no scenario") }
}

pub struct G1(pub u64);
pub struct G2(pub String);
pub struct G3(pub u32);

pub fn global_string(g: &Global) -> String {
    format!(
        "{:?}/{:?}/{:?}",
        g.get::<G1>().map(|g| g.0),
        g.get::<G2>().map(|g| g.0.clone()),
        g.get::<G3>().map(|g| g.0)
    )
}

pub fn expected_global(sc: &Scenario) -> String {
    let s = sc.seed;
    match sc.cfg.global_kind {
        1 | 4 | 7 => format!("{:?}/{:?}/{:?}", Some(s), None::<String>, None::<u32>),
        2 | 3 | 5 | 6 => format!("{:?}/{:?}/{:?}", Some(s), Some(format!("g{}", s)), Some(s as u32)),
        _ => format!("{:?}/{:?}/{:?}", None::<u64>, None::<String>, None::<u32>),
    }
}

fn global(sc: &Scenario) -> Global {
    let s = sc.seed;
    match sc.cfg.global_kind {
        1 => Box::new(G1(s)).into(),
        2 => (G1(s), G2(format!("g{}", s)), G3(s as u32)).into(),
        3 => {
            let mut g = Global::default();
            g.insert(G1(0));
            g.insert(G3(s as u32));
            g.insert(G1(s));
            g.insert(G2(format!("g{}", s)));
            g
        }
        4 => {
            let mut g: Global = Box::new(G1(7)).into();
            assert_eq!(g.insert(G1(s)).map(|g| g.0), Some(7));
            g
        }
        5 => {
            let mut g: Global = Box::new(G2(format!("g{}", s))).into();
            assert!(g.insert(G3(3)).is_none());
            assert!(g.insert(G1(s)).is_none());
            assert_eq!(g.insert(G3(s as u32)).map(|g| g.0), Some(3));
            g
        }
        6 => {
            let mut g: Global = (G3(s as u32), G2("old".into())).into();
            assert_eq!(g.insert(G2(format!("g{}", s))).map(|g| g.0), Some("old".to_string()));
            g.insert(G1(s));
            g
        }
        7 => (G1(s),).into(),
        8 => ().into(),
        _ => Global::default(),
    }
}

pub fn content_types() -> Vec<&'static str> {
    vec!["text/html; charset=utf-8", "text/plain", "application/json", "application/x-sim; v=1"]
}

/// Starts the real server. Called on the first simulated thread.
pub fn start(scenario: &'static Scenario) -> Result<Listening, String> {
    unsafe { SC = Some(scenario) }
    routers::start(scenario)
}

/// The address, given in one of the possible ways.
fn host(sc: &Scenario) -> Host {
    let addr = sc.cfg.address();
    let other = sc.cfg.port.wrapping_add(1);
    match (addr, sc.cfg.host) {
        (SocketAddr::V6(_), 0) | (SocketAddr::V4(_), 4) => addr.to_string().parse().expect("host"),
        (SocketAddr::V6(mut a), 2) => {
            let port = a.port();
            a.set_port(other);
            let mut h: Host = a.into();
            h.port(port);
            h
        }
        (SocketAddr::V6(a), 1) => a.into(),
        (SocketAddr::V4(a), 0) => a.port().into(),
        (SocketAddr::V4(a), 1) => Host::any_v4(a.port()),
        (SocketAddr::V4(a), 2) => (*a.ip(), a.port()).into(),
        (SocketAddr::V4(a), 3) => a.into(),
        (SocketAddr::V4(a), 5) => {
            let mut h: Host = (*a.ip(), other).into();
            h.port(a.port());
            h
        }
        // the default
        (SocketAddr::V4(_), 6) => {
            let s = Server::new(|_: Context, _: Response| {});
            s.host
        }
        _ => addr.into(),
    }
}

pub(crate) fn configure<R: rustful::handler::HandleRequest + 'static>(sc: &'static Scenario, handlers: R) -> Result<Listening, String> {
    let mut server = Server {
        host: host(sc),
        threads: sc.cfg.threads,
        keep_alive: sc.cfg.keep_alive.map(|(t, f)| KeepAlive {
            timeout: std::time::Duration::new(t / SEC, (t % SEC) as u32),
            free_threads: f,
        }),
        global: global(sc),
        context_filters: filters::context_filters(sc),
        response_filters: filters::response_filters(sc),
        ..Server::new(handlers)
    };
    if sc.cfg.server_name != "rustful" {
        server.server = sc.cfg.server_name.clone();
    }
    if sc.cfg.content_type != 0 {
        server.content_type = content_types()[sc.cfg.content_type as usize].parse().unwrap();
    }
    let r = if sc.cfg.https {
        if sc.cfg.via_build {
            server.build().run_https(tls::Stub)
        } else {
            server.run_https(tls::Stub)
        }
    } else if sc.cfg.via_build {
        server.build().run()
    } else {
        server.run()
    };
    r.map_err(|e| format!("{:?}", e))
}
