# sourced by demo.sh: compiles sources of /repo together with demo.cc, all in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo.XXXXXXXX)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/x/include" "$work/x/ska" "$work/gen"
[ -f "$here/flat_hash_map.hpp" ] && cp "$here/flat_hash_map.hpp" "$work/x/ska/"
# usage: build FLAGS -- source files of /repo
build() {
  local flags=() srcs=() objs=() pids=()
  while [ "$1" != "--" ]; do flags+=("$1"); shift; done
  shift
  for g in gen_perc_bucket_tags:percentile_bucket_tags gen_perc_bucket_values:percentile_bucket_values gen_valid_chars:valid_chars; do
    g++ -std=c++17 -O0 -DFMT_SHARED tools/${g%%:*}.cc -o "$work/gen/${g%%:*}" -lfmt && "$work/gen/${g%%:*}" > "$work/gen/${g##*:}.inc" || exit 2
  done
  srcs=("$@" "$here/demo.cc")
  [ -f "$here/vclock.cc" ] && srcs+=("$here/vclock.cc")
  for s in "${srcs[@]}"; do
    o="$work/$(echo "$s" | tr / _).o"
    objs+=("$o")
    g++ -std=c++17 -O0 -DSPDLOG_COMPILED_LIB -DSPDLOG_SHARED_LIB -DSPDLOG_FMT_EXTERNAL -DFMT_SHARED "${flags[@]}" \
      -I "$work/gen" -I "$work/x/include" -I . -I "$here" -c "$s" -o "$o" & pids+=($!)
  done
  for p in "${pids[@]}"; do wait $p || { echo "demo does not compile"; exit 2; }; done
  g++ -rdynamic "${flags[@]}" "${objs[@]}" -o "$work/demo" $(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so) \
    -lspdlog -lfmt -lcurl -lssl -lcrypto -lz -lxxhash $DEMO_LIBS -lpthread || { echo "demo does not link"; exit 2; }
}
METERS="spectator/common_refs.cc spectator/counter.cc spectator/dist_summary.cc spectator/gauge.cc spectator/max_gauge.cc spectator/monotonic_counter.cc spectator/monotonic_counter_uint.cc spectator/monotonic_sampled.cc spectator/timer.cc spectator/string_pool.cc spectator/strings.cc spectator/smile.cc spectator/compressed_buffer.cc spectator/gzip.cc spectator/percentile_buckets.cc util/logger.cc"
CORE="$METERS spectator/registry.cc spectator/http_client.cc metatron/metatron_sample.cc"
SERVER="server/spectatord.cc server/udp_server.cc server/local_server.cc server/proc_utils.cc"
