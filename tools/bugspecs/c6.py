C = "src/vmecpp/cpp/"
BUGS=[("stale", "C12", [(C+"vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc", "  bP.setZero(num_grid_points);", "  if (bP.size() != num_grid_points) bP.setZero(num_grid_points);")])]
