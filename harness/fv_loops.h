#ifndef FV_LOOP_td_month
#define FV_LOOP_td_month(...)
#endif
#ifndef FV_LOOP_td_day
#define FV_LOOP_td_day(...)
#endif
#ifndef FV_LOOP_td_hour
#define FV_LOOP_td_hour(...)
#endif
#ifndef FV_LOOP_wday_years
#define FV_LOOP_wday_years(...)
#endif
#ifndef FV_LOOP_mt_walk
#define FV_LOOP_mt_walk(...)
#endif
#ifndef FV_LOOP_jq_find
#define FV_LOOP_jq_find(...)
#endif
#ifndef FV_LOOP_jq_insert
#define FV_LOOP_jq_insert(...)
#endif
#ifndef FV_LOOP_sel_max
#define FV_LOOP_sel_max(...)
#endif
#ifndef FV_LOOP_rw_pipe
#define FV_LOOP_rw_pipe(...)
#endif
#ifndef FV_LOOP_fld_range
#define FV_LOOP_fld_range(...)
#endif
#ifndef FV_LOOP_fld_end
#define FV_LOOP_fld_end(...)
#endif
#ifndef FV_LOOP_fld_begin
#define FV_LOOP_fld_begin(...)
#endif
