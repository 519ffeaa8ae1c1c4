#![allow(deprecated, dead_code)]
#[macro_use] extern crate serde_derive;
#[macro_use] extern crate htrpc;

pub mod vs;
pub mod env;
#[macro_use] pub mod world;
pub mod args;
pub mod routing;
pub mod server;
pub mod wire;
pub mod e2e;
pub mod shapes;
pub mod client;
pub mod pool;
pub mod conc;
pub mod more;
pub mod scale; mod seq;

macro_rules! entries { ($($m:ident :: $f:ident),* $(,)?) => {
    static TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($f), $m::$f)),*];
} }
entries! {
    args::h_path_str, args::h_path_long, args::h_path_two, args::h_path_nums, args::h_path_ascii,
    args::h_query_str, args::h_query_long, args::h_query_opt, args::h_query_map, args::h_query_nums, args::h_query_ascii,
    args::h_header_str, args::h_header_long, args::h_header_opt, args::h_header_raw, args::h_header_nums, args::h_header_ascii, args::h_header_name,
    routing::h_route_path, routing::h_route_subset, routing::h_route_escaped, routing::h_route_agree, routing::h_register_conflict, routing::h_route_methods, routing::h_route_long, routing::h_register_all, routing::h_register_long, routing::h_route_many,
    server::h_rob_start, server::h_rob_method, server::h_rob_target, server::h_rob_target2, server::h_rob_version, server::h_rob_header, server::h_rob_value,
    server::h_rob_clen, server::h_rob_te, server::h_rob_chunk, server::h_rob_size, server::h_rob_cut,
    wire::h_bad_path, wire::h_bad_escape, wire::h_bad_utf8, wire::h_bad_query, wire::h_bad_header, wire::h_bad_presence, wire::h_bad_unit,
    wire::h_header_case, wire::h_unknown_query, wire::h_unknown_header, wire::h_frame_seq, wire::h_order, wire::h_unknown_shapes, wire::h_bad_header_utf8, wire::h_unknown_near,
    e2e::h_e2e_body, e2e::h_e2e_resheader, e2e::h_resheader_long, server::h_rob_long, e2e::h_e2e_frag, e2e::h_e2e_split, e2e::h_e2e_size,
    shapes::h_shapes, shapes::h_shapes_empty, shapes::h_arity_client, shapes::h_arity_server, shapes::h_status_names, shapes::h_status_number,
    shapes::h_problem_plain, shapes::h_problem_variant, shapes::h_problem_blank,
    shapes::h_json_query, shapes::h_json_header, shapes::h_json_path, shapes::h_msgpack, shapes::h_json_bad, shapes::h_msgpack_bad, shapes::h_status_shapes, shapes::h_problem_track, shapes::h_problem_big, shapes::h_json_edge, shapes::h_json_wide, shapes::h_shapes_root, shapes::h_arity_many,
    client::h_cli_status, client::h_cli_bytes, client::h_cli_clen, client::h_cli_cut, client::h_cli_header, client::h_cli_undeclared, client::h_cli_wire, client::h_srv_wire, client::h_unknown_response, client::h_cli_full,
    pool::h_pool_hist, pool::h_pool_fail, pool::h_pool_lru, pool::h_pool_suspend, pool::h_pool_timeout, pool::h_pool_late, pool::h_pool_nosuspend, pool::h_pool_many, pool::h_pool_default, pool::h_pool_suspend2, pool::h_pool_addr, pool::h_pool_close, pool::h_pool_cancel, pool::h_pool_mixed, pool::h_pool_head,
    more::h_path_floats, more::h_query_floats, more::h_header_floats, more::h_res_nums, more::h_res_typed, more::h_header_upper, more::h_header_case2, more::h_header_frame,
    more::h_header_many, more::h_query_many, more::h_cli_problem, more::h_cli_abandon, more::h_e2e_block, more::h_pool_server, more::h_pool_gone, more::h_srv_life, more::h_content_length, more::h_route_deep,
    scale::h_frame_many, scale::h_pool_long, scale::h_pool_1024, scale::h_pool_suspend_many, scale::h_conc_many, scale::h_rob_half, scale::h_srv_log, scale::h_json_big, scale::h_msgpack_big, scale::h_unknown_many, scale::h_conc_idle, scale::h_pool_addrs,
    seq::h_route_seq, seq::h_args_seq, seq::h_frame_status, seq::h_srv_again, seq::h_srv_many, seq::h_frame_long,
    conc::h_conc_raw, conc::h_conc_clients, conc::h_conc_mix, conc::h_conc_calls, conc::h_frame_unread,
}

fn main() {
    let name = std::env::args().nth(1).unwrap_or_default();
    #[cfg(feature = "replay")]
    {
        let f = std::env::args().nth(2).expect("inputs");
        let s = std::fs::read_to_string(f).expect("read inputs");
        let mut q = vs::INPUTS.lock().unwrap();
        for t in s.split_whitespace() { q.push_back(t.parse().expect("input")); }
    }
    for &(n, f) in TABLE { if n == name { f(); println!("REPLAY: ok"); return; } }
    std::process::exit(4);
}
