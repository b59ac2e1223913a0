/* Scene plugin in the form the scene compiler emits; PLUG_ID selects the contents. */
#include <amino.h>
#include <amino/rx/rxtype.h>
#include <amino/rx/scenegraph.h>
#include <amino/rx/scene_geom.h>
#include "plug.h"
static const float vertices0[] = {0.f, 0.f, 0.f, PLUG_F(PLUG_ID), 0.f, 0.f, 0.f, 1.f, .25f, 0.f, 0.f, 1.f};
static const float normals0[] = {0.f, 0.f, 1.f, 0.f, 1.f, 0.f, 1.f, 0.f, 0.f, 0.f, 0.f, 1.f};
static const unsigned indices0[] = {0, 1, 2, 0, 1, 3, 0, 2, 3, 1, 2, 3};
static const unsigned char rgba0[] = {PLUG_ID, 20, 30, 255, 40, 50, 60, 255};
static const float uv0[] = {0.25f, 0.f, 0.75f, 0.f, 0.25f, 0.f, PLUG_F(PLUG_ID), 0.f};
struct aa_rx_mesh *aa_rx_dl_mesh__m(void) {
    struct aa_rx_mesh *m = aa_rx_mesh_create();
    aa_rx_mesh_set_vertices(m, 4, vertices0, 0); aa_rx_mesh_set_indices(m, 4, indices0, 0); aa_rx_mesh_set_normals(m, 4, normals0, 0);
    aa_rx_mesh_set_rgba(m, 2, 1, rgba0, 0); aa_rx_mesh_set_uv(m, 4, uv0, 0);
    return m;
}
static void geom(struct aa_rx_sg *sg, const char *frame, struct aa_rx_mesh *m) {
    struct aa_rx_geom_opt *o = aa_rx_geom_opt_create(); aa_rx_geom_opt_set_color3(o, .25, .5, .75); aa_rx_geom_opt_set_collision(o, 1); aa_rx_geom_opt_set_visual(o, 1);
    double dim[3] = {.1, .2, .3}; aa_rx_geom_attach(sg, frame, m ? aa_rx_geom_mesh(o, m) : aa_rx_geom_box(o, dim)); aa_rx_geom_opt_destroy(o);
}
struct aa_rx_sg *aa_rx_dl_sg__one(struct aa_rx_sg *sg, const char *root) {
    if (NULL == sg) sg = aa_rx_sg_create();
    static const double q[4] = {0, 0, 0, 1}, v[3] = {PLUG_F(PLUG_ID), 0, 1};
    aa_rx_sg_add_frame_fixed(sg, root, PLUG_NAME("a"), q, v);
    geom(sg, PLUG_NAME("a"), NULL);
    return sg;
}
struct aa_rx_sg *aa_rx_dl_sg__two(struct aa_rx_sg *sg, const char *root) {
    if (NULL == sg) sg = aa_rx_sg_create();
    static const double q[4] = {0, 0, 0, 1}, v0[3] = {PLUG_F(PLUG_ID), 2, 1}, v1[3] = {0, PLUG_F(PLUG_ID), 0}, v2[3] = {1, 0, 0}, az[3] = {0, 0, 1}, ax[3] = {1, 0, 0};
    aa_rx_sg_add_frame_revolute(sg, root, PLUG_NAME("b"), q, v0, PLUG_NAME("q"), az, .5);
    aa_rx_sg_set_limit_pos(sg, PLUG_NAME("q"), -1, PLUG_F(PLUG_ID));
    aa_rx_sg_add_frame_prismatic(sg, PLUG_NAME("b"), PLUG_NAME("c"), q, v1, PLUG_NAME("p"), ax, 0);
    aa_rx_sg_add_frame_fixed(sg, PLUG_NAME("c"), PLUG_NAME("d"), q, v2);
    struct aa_rx_mesh *m = aa_rx_dl_mesh__m();
    geom(sg, PLUG_NAME("b"), m); geom(sg, PLUG_NAME("d"), m); geom(sg, PLUG_NAME("d"), NULL);
    aa_rx_mesh_destroy(m);
    aa_rx_sg_allow_collision_name(sg, PLUG_NAME("b"), PLUG_NAME("d"), 1);
    return sg;
}
