typedef long long time_t; time_t time(time_t *);
