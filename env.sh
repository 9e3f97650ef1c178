export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export PATH="/root/.cargo/bin:$PATH"
export CARGO_TARGET_DIR=/verif/target
export MC_VERIF_DIR=/verif
bin_of() {
    case "$1" in
    P01|P02|P03|P04) echo pak ;;
    P05|P06|P07|P20|P24) echo helpers ;;
    P08|P09|P10) echo containers ;;
    P11|P12|P13|P14|P15|P21|P22|P23|P27|P34) echo asset ;;
    P16|P18|P19) echo misc ;;
    P17) echo registry ;;
    P25|P26) echo integrate ;;
    P28) echo manager ;;
    P29|P30|P31|P32|P33|P35) echo worker ;;
    *) echo "unknown property $1" >&2; return 1 ;;
    esac
}
