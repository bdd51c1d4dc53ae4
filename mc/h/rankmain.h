extern "C" int mc_rank_main(int, char**);
