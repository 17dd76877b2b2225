#include "world.h"
static void smoke() {
    world_init();
    mark_root(spawn("ctl", [] {
        start_server();
        Client *c = spawn_client(0, "mod0", [](Client *c) {
            int r = c->connect(); CHECK(r == 0, "connect %d", r);
            tag_handle h; r = dax_tag_add(c->ds, &h, (char *)"Tag1", DAX_INT, 5, 0); CHECK(r == 0, "add %d", r);
            int16_t d[5] = {1,2,3,4,5}, e[5] = {0};
            r = dax_tag_write(c->ds, h, d); CHECK(r == 0, "write %d", r);
            r = dax_tag_read(c->ds, h, e); CHECK(r == 0 && !memcmp(d, e, 10), "read %d", r);
            r = dax_disconnect(c->ds); trace("disc %d", r); nontrivial();
        });
        Fiber *f = c->proc->main; wait_until([f] { return f->done; }, -1, "client");
    })->main);
    run_loop();
}
SCENARIO("SMOKE", "smoke", 1, smoke, "", "")
