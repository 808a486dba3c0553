/* Executes a script of FDTD library calls (argv[1]), one per line, in the
 * current directory.  Values are printed to out.txt ("tag value"), whole arrays
 * are written as raw float32 with a text header.  Nothing is judged here. */
#include "pFDTD.h"
#define MAXA 40
#define MAXS 64
static char line[4096], *a[MAXA];
static char srcline[MAXS][1024];
static int nsrc = 0;
static FILE *out;
static float **avg = 0, **avg2 = 0;
static float omega[16];
static float far_at;
static int far_on = 0;
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer)
#include <sanitizer/allocator_interface.h>
#define HEAP() ((double)__sanitizer_get_current_allocated_bytes())
#endif
#endif
#ifndef HEAP
#define HEAP() 0.0
#endif

static int split(char *s, char **v) {
  int n = 0;
  char *p = strtok(s, " \t\n");
  while (p && n < MAXA) {
    v[n++] = p;
    p = strtok(0, " \t\n");
  }
  return n;
}
#define F(n) ((float)atof(a[n]))
#define I(n) (atoi(a[n]))
#define L(n) (atol(a[n]))
#define IS(s) (strcmp(a[0], s) == 0)

static void arr3(FILE *f, const char *nm, float ***p, int n0, int n1, int n2) {
  int i, j;
  if (!p)
    return;
  fprintf(f, "%s %d %d %d\n", nm, n0, n1, n2);
  for (i = 0; i < n0; i++)
    for (j = 0; j < n1; j++)
      fwrite(p[i][j], sizeof(float), n2, f);
}
#define A3(nm) arr3(f, #nm, nm, misize, mjsize, mksize)
static int bloch(void) {
  return (use_periodic_x == 1 || use_periodic_y == 1) &&
         (wave_vector_x != 0.0 || wave_vector_y != 0.0);
}
static void dump(char *name) {
  FILE *f = fopen(name, "wb");
  int i, j;
  A3(Ex); A3(Ey); A3(Ez); A3(Hx); A3(Hy); A3(Hz); A3(Jx); A3(Jy); A3(Jz);
  A3(epsilonx); A3(epsilony); A3(epsilonz);
  A3(mepsilon); A3(momega); A3(mgamma);
  if (bloch()) {
    A3(iEx); A3(iEy); A3(iEz); A3(iHx); A3(iHy); A3(iHz);
    A3(iJx); A3(iJy); A3(iJz);
  }
  fprintf(f, "ds_nz 1 1 %d\n", mksize);
  fwrite(ds_nz, sizeof(float), mksize, f);
  fprintf(f, "position %d %d %d\n", misize, mjsize, mksize);
  for (i = 0; i < misize; i++)
    for (j = 0; j < mjsize; j++) {
      int k;
      for (k = 0; k < mksize; k++) {
        float v = position[i][j][k];
        fwrite(&v, sizeof(float), 1, f);
      }
    }
  fclose(f);
}
static void dump_far(char *name) {
  FILE *f = fopen(name, "wb");
#define AF(nm) arr3(f, #nm, nm, isize, jsize, SpecN)
  AF(Ex_cos); AF(Ex_sin); AF(Ey_cos); AF(Ey_sin);
  AF(Hx_cos); AF(Hx_sin); AF(Hy_cos); AF(Hy_sin);
  fclose(f);
}
static float ***field(const char *n) {
#define FF(x) if (strcmp(n, #x) == 0) return x
  FF(Ex); FF(Ey); FF(Ez); FF(Hx); FF(Hy); FF(Hz);
  FF(iEx); FF(iEy); FF(iEz); FF(iHx); FF(iHy); FF(iHz);
  FF(Jx); FF(Jy); FF(Jz); FF(iJx); FF(iJy); FF(iJz);
  return 0;
}
static void source(void) {
  if (IS("dipole_gauss"))
    Gaussian_dipole_source(a[1], F(2), F(3), F(4), F(5), F(6), L(7), L(8));
  else if (IS("dipole_lorentz"))
    Lorentzian_dipole_source(a[1], F(2), F(3), F(4), F(5), F(6), L(7), L(8));
  else if (IS("plane_gauss"))
    Gaussian_planewave(a[1], a[2], F(3), F(4), L(5), L(6));
  else if (IS("plane_lorentz"))
    Lorentzian_planewave(a[1], a[2], F(3), F(4), L(5), L(6));
  else if (IS("beam_gauss"))
    Gaussian_beam_prop_Gauss(a[1], a[2], F(3), F(4), F(5), F(6), F(7), F(8),
                             F(9), L(10), L(11));
  else if (IS("beam_lorentz"))
    Gaussian_beam_prop_Lorentz(a[1], a[2], F(3), F(4), F(5), F(6), F(7), F(8),
                               F(9), L(10), L(11));
  else if (IS("line_gauss"))
    Gaussian_line_source(a[1], F(2), F(3), F(4), F(5), L(6), L(7));
  else if (IS("line_lorentz"))
    Lorentzian_line_source(a[1], F(2), F(3), F(4), F(5), L(6), L(7));
  else if (IS("ext_point"))
    external_source(a[1], F(2), F(3), F(4), F(5));
  else if (IS("ext_plane"))
    external_planewave(a[1], a[2], F(3), F(4));
  else if (IS("incoherent"))
    incoherent_point_dipole(a[1], F(2), F(3), F(4), F(5), L(6), L(7), F(8),
                            F(9));
  else {
    fprintf(stderr, "driver: unknown source %s\n", a[0]);
    exit(77);
  }
}
static void run(int n, int tri) {
  int s, m;
  char buf[1024];
  for (m = 0; m < n; m++) {
    for (s = 0; s < nsrc; s++) {
      strcpy(buf, srcline[s]);
      if (split(buf, a))
        source();
    }
    if (tri)
      propagate_tri();
    else
      propagate();
    if (far_on)
      far_field_param(omega, far_at);
    t++;
  }
}
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "r");
  int n;
  char keep[4096];
  out = fopen("out.txt", "w");
  static char obuf[1 << 16];
  if (!f || !out)
    return 78;
  setvbuf(out, obuf, _IOFBF, sizeof obuf);
  while (fgets(line, sizeof line, f)) {
    strcpy(keep, line);
    n = split(line, a);
    if (!n || a[0][0] == '#')
      continue;
    if (IS("structure_size")) structure_size(F(1), F(2), F(3));
    else if (IS("lattice_size")) lattice_size(I(1), I(2), I(3));
    else if (IS("non_uniform_grid")) non_uniform_grid("z", F(1), F(2), I(3));
    else if (IS("pml_size")) pml_size(I(1), I(2), I(3), I(4), I(5), I(6));
    else if (IS("set_default")) set_default_parameter(F(1));
    else if (IS("sigma_order")) set_sigma_order(F(1), F(2), F(3), F(4), F(5), F(6));
    else if (IS("sigma_max")) set_sigma_max(F(1), F(2), F(3), F(4), F(5), F(6));
    else if (IS("kappa")) set_kappa(F(1), F(2), F(3));
    else if (IS("parity")) Hz_parity(I(1), I(2), I(3));
    else if (IS("periodic")) periodic_boundary(I(1), I(2), F(3), F(4));
    else if (IS("specn")) SpecN = I(1);
    else if (IS("shift")) shift = F(1);
    else if (IS("memory")) memory();
    else if (IS("background")) background(F(1));
    else if (IS("object")) input_object(a[1], a[2], F(3), F(4), F(5), F(6), F(7), F(8), F(9));
    else if (IS("euler")) input_object_Euler_rotation(a[1], 0, F(2), F(3), F(4), F(5), F(6), F(7), F(8), F(9), F(10), F(11));
    else if (IS("molecular")) input_molecular(a[1], F(2), F(3), F(4), F(5), F(6), F(7));
    else if (IS("drude")) input_Drude_medium(a[1], F(2), F(3), F(4), F(5), F(6), F(7), F(8), F(9), F(10), F(11));
    else if (IS("drude2")) input_Drude_medium2(a[1], a[2], F(3), F(4), F(5), F(6), F(7), F(8), F(9), F(10), F(11), F(12));
    else if (IS("random_object")) random_object(a[1], F(2), F(3), F(4), F(5), F(6), F(7), F(8), F(9), F(10), I(11), I(12));
    else if (IS("random_dipole")) random_Gaussian_dipole(a[1], F(2), F(3), F(4), F(5), F(6), F(7), F(8), F(9), I(10), I(11));
    else if (IS("make_epsilon")) make_epsilon();
    else if (IS("make_metal")) make_metal_structure();
    else if (IS("coefficient")) coefficient();
    else if (IS("field_init")) field_initialization();
    else if (IS("set_t")) t = L(1);
    else if (IS("real_space")) real_space_param(F(1), F(2));
    else if (IS("source")) {
      if (nsrc < MAXS)
        strcpy(srcline[nsrc++], strstr(keep, "source") + 6);
    } else if (IS("clear_sources")) nsrc = 0;
    else if (IS("once")) {
      char buf[4096];
      strcpy(buf, strstr(keep, "once") + 4);
      if (split(buf, a))
        source();
    } else if (IS("run")) run(I(1), 0);
    else if (IS("run_tri")) run(I(1), 1);
    else if (IS("set")) {
      float ***p = field(a[1]);
      if (p)
        p[I(2)][I(3)][I(4)] = F(5);
    } else if (IS("dump")) dump(a[1]);
    else if (IS("gv")) fprintf(out, "%s %.9g\n", a[5], grid_value(a[1], I(2), I(3), I(4)));
    else if (IS("eps")) fprintf(out, "%s %.9g\n", a[4], eps(I(1), I(2), I(3)));
    else if (IS("info")) {
      fprintf(out, "isize %d\njsize %d\nksize %d\nmisize %d\nmjsize %d\nmksize %d\n", isize, jsize, ksize, misize, mjsize, mksize);
      fprintf(out, "dt %.9g\nds_x %.9g\nds_y %.9g\nds_z %.9g\neo %.9g\nuo %.9g\nc %.9g\npi %.9g\n", dt, ds_x, ds_y, ds_z, eo, uo, light_speed, pi);
    } else if (IS("z2i")) fprintf(out, "%s %d\n", a[2], non_uniform_z_to_i(F(1)));
    else if (IS("i2z")) fprintf(out, "%s %.9g\n", a[2], non_uniform_i_to_z(I(1)));
    else if (IS("amp")) {
      float v = 0;
      if (strcmp(a[1], "G") == 0) v = Gauss_amp(F(2), F(3), L(4), L(5));
      else if (strcmp(a[1], "L") == 0) v = Lorentz_amp(F(2), F(3), L(4), L(5));
      else if (strcmp(a[1], "iG") == 0) v = iGauss_amp(F(2), F(3), L(4), L(5));
      else v = iLorentz_amp(F(2), F(3), L(4), L(5));
      fprintf(out, "%s %.9g\n", a[6], v);
    } else if (IS("total_E_energy")) total_E_energy();
    else if (IS("total_EM_energy")) total_EM_energy();
    else if (IS("total_E2")) total_E2();
    else if (IS("E_block")) total_E_energy_block(F(1), F(2), F(3), F(4), F(5), F(6));
    else if (IS("E2_block")) total_E_energy2_block(F(1), F(2), F(3), F(4), F(5), F(6));
    else if (IS("E3_block")) total_E_energy3_block(F(1), F(2), F(3), F(4), F(5), F(6));
    else if (IS("EM_block")) total_EM_energy_block(F(1), F(2), F(3), F(4), F(5), F(6));
    else if (IS("max_E")) max_E_Energy_detector(F(1), F(2), F(3), F(4), F(5), F(6));
    else if (IS("drude_loss")) Drude_energy_loss_in_block(F(1), F(2), F(3), F(4), F(5), F(6));
    else if (IS("poynting_total")) Poynting_total();
    else if (IS("poynting_block")) Poynting_block(F(1), F(2), F(3), F(4), F(5), F(6));
    else if (IS("poynting_side")) Poynting_side(F(1), F(2));
    else if (IS("poynting_updown")) Poynting_UpDown(F(1), F(2));
    else if (IS("poynting_point")) fprintf(out, "%s %.9g\n", a[6], Poynting_half_sphere_point(a[1], F(2), F(3), F(4), F(5)));
    else if (IS("sums")) fprintf(out, "Sumx %.9g\nSumy %.9g\nSumz %.9g\nSideSumx %.9g\nSideSumy %.9g\nSumUpper %.9g\nSumLower %.9g\n", Sumx, Sumy, Sumz, SideSumx, SideSumy, SumUpper, SumLower);
    else if (IS("print_energy")) print_energy();
    else if (IS("out_point")) out_point(a[1], F(2), F(3), F(4), L(5), L(6), a[7]);
    else if (IS("out_points")) out_several_points(a[1], F(2), F(3), F(4), I(5), I(6), L(7), L(8), a[9]);
    else if (IS("out_plane")) out_plane(a[1], a[2], F(3), a[4]);
    else if (IS("out_plane_periodic")) out_plane_periodic(a[1], a[2], F(3), a[4], I(5), I(6));
    else if (IS("out_plane_avg")) out_plane_time_average(a[1], a[2], F(3), L(4), L(5), &avg, a[6]);
    else if (IS("out_plane_proj")) out_plane_projection(a[1], a[2], a[3], I(4));
    else if (IS("out_epsilon")) out_epsilon(a[1], F(2), a[3]);
    else if (IS("out_epsilon_periodic")) out_epsilon_periodic(a[1], F(2), a[3], I(4), I(5));
    else if (IS("omega")) {
      int q;
      for (q = 1; q < n && q <= 16; q++)
        omega[q - 1] = F(q);
    } else if (IS("far_on")) { far_at = F(1); far_on = 1; }
    else if (IS("far_off")) far_on = 0;
    else if (IS("far_once")) far_field_param(omega, F(1));
    else if (IS("dump_far")) dump_far(a[1]);
    else if (IS("print_ap")) print_amp_and_phase(I(1));
    else if (IS("print_ri")) print_real_and_imag(I(1));
    else if (IS("print_2n")) print_real_and_imag_2n_size(I(1), I(2));
    else if (IS("make_2n")) make_2n_size(I(1), I(2));
    else if (IS("far_fft")) far_field_FFT(I(1), F(2), F(3), omega, I(4));
    else if (IS("transform")) transform_farfield(I(1), I(2), a[3], I(4));
    else if (IS("add_far")) add_farfield(I(1), a[2]);
    else if (IS("heap")) fprintf(out, "%s %.17g\n", a[1], HEAP());
    else if (IS("period")) fprintf(out, "%s %d\n", a[2], get_period_in_update(F(1)));
    else if (IS("rename")) rename(a[1], a[2]);
    else if (IS("E_thin_z")) total_E_energy_thin_block_z(F(1), F(2), F(3), F(4), F(5), F(6), F(7), F(8), a[9]);
    else if (IS("drude_loss2")) Drude_energy_loss_in_block2(F(1), F(2), F(3), F(4), F(5), F(6), F(7), F(8));
    else if (IS("out_plane_avg_proj")) out_plane_time_average_projection(a[1], a[2], L(3), L(4), &avg2, a[5], I(6));
    else if (IS("out_epsilon_proj")) out_epsilon_projection(a[1], a[2]);
    else {
      fprintf(stderr, "driver: unknown command %s\n", a[0]);
      return 77;
    }
  }
  fclose(f);
  fprintf(out, "END 1\n");
  fclose(out);
  return 0;
}
