use crate::engine::Scn;
mod agent;
mod ends;
mod fds;
mod life;
mod misc;
mod output;
mod shut;
mod spawn;
pub fn scenarios(prop: &str, tier: &str) -> Vec<Scn> {
    let deep = tier != "quick";
    match prop {
        "P01" => life::reaping(deep),
        "P02" => life::statuses(deep),
        "P03" => output::capture_all(deep),
        "P04" => output::ranges(deep),
        "P05" => output::detached(deep),
        "P06" => fds::tables(deep),
        "P07" => fds::leaks(deep),
        "P08" => fds::pipes(deep),
        "P09" => spawn::environment(deep),
        "P10" => spawn::execution(deep),
        "P11" => spawn::requests(deep),
        "P12" => spawn::failures(deep),
        "P13" => spawn::shortage(deep),
        "P14" => life::table(deep),
        "P15" => life::signals(deep),
        "P16" => shut::term(deep),
        "P17" => shut::quit(deep),
        "P18" => shut::idle(deep),
        "P19" => shut::mixed(deep),
        "P20" => shut::arguments(deep),
        "P21" => agent::events(deep),
        "P22" => agent::reconnect(deep),
        "P23" => agent::backoff(deep),
        "P24" => agent::shutdown(deep),
        "P25" => misc::http(deep),
        "P26" => agent::malformed(deep),
        "P27" => misc::statistics(deep),
        "P28" => agent::bursts(deep),
        "P29" => misc::times(deep),
        "P30" => misc::auth(deep),
        "E01" => ends::both(deep),
        "E02" => ends::builders_mean(deep),
        "E03" => ends::http_client(deep),
        _ => vec![],
    }
}
