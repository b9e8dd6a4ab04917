mod api;
mod c_cli;
mod c_dec;
#[cfg(feature = "ffmpeg")]
mod c_ff;
mod c_frame;
mod c_pipe;
mod c_san;
#[cfg(feature = "vs")]
mod c_vs;
mod ctx;
mod gen;
mod mock;
mod refm;
#[cfg(feature = "vs")]
mod vs;
mod y4mfile;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).cloned().unwrap_or_default();
    ctx::init(&id);
    ctx::install_panic_hook();
    match id.as_str() {
        "C01" => c_frame::c01(),
        "C02" => c_frame::c02(),
        "C03" => c_frame::c03(),
        "C04" => c_frame::c04(),
        "C05" => c_frame::c05(),
        "C06" => c_frame::c06(),
        "C07" => c_frame::c07(),
        "C08" => c_frame::c08(),
        "C09" => c_frame::c09(),
        "C10" => c_frame::c10(),
        "C24" => c_frame::c24(),
        "C25" => c_frame::c25(),
        "C11" => c_pipe::c11(),
        "C12" => c_pipe::c12(),
        "C13" => c_pipe::c13(),
        "C14-history" => c_pipe::hist_child(),
        "C14" => c_pipe::c14(),
        "C23" => c_pipe::c23(),
        "C15" => c_dec::c15(),
        "C15-stdin" => c_dec::stdin_child(),
        "C16" => c_dec::c16(),
        #[cfg(feature = "vs")]
        "C26" => c_vs::c26(),
        #[cfg(feature = "ffmpeg")]
        "C27" => c_ff::c27(),
        #[cfg(feature = "ffmpeg")]
        "C28" => c_ff::c28(),
        #[cfg(feature = "ffmpeg")]
        "FF-make" => c_ff::make_child(),
        #[cfg(feature = "ffmpeg")]
        "FF-check" => c_ff::check_child(),
        #[cfg(feature = "ffmpeg")]
        "FF-one" => c_ff::one_child(),
        "C17" => c_dec::c17(),
        "C18" => c_dec::c18(),
        "C21" => c_cli::c21(),
        "C22" => c_cli::c22(),
        "C19" => c_san::c19(),
        "C19-small" => c_san::small("C19"),
        "C19-alias" => c_san::small("C19-alias"),
        "C19-mono" => c_san::mono(),
        "C20" => c_san::c20(),
        "C20-cold" => c_san::c20_cold(),
        "C20-small" => c_san::small("C20"),
        _ => {
            eprintln!("unknown check {id}");
            std::process::exit(2)
        }
    }
    ctx::finish();
}
