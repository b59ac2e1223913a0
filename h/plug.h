#define PLUG_S_(x) #x
#define PLUG_S(x) PLUG_S_(x)
#define PLUG_NAME(n) "plug" PLUG_S(PLUG_ID) n
#define PLUG_F(id) (1.5f + 0.5f * (id))
