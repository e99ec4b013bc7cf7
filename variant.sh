# Sourced: the build of the client that property $P is about.
FEATURES=
case "$P" in
  C24) FEATURES="--features tls"; export CARGO_TARGET_DIR="$CARGO_TARGET_DIR/tls" ;;
  C25) FEATURES="--no-default-features --features astd"; export CARGO_TARGET_DIR="$CARGO_TARGET_DIR/astd" ;;
esac
