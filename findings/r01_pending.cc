// A get that arrives before a get function is registered is never answered.
#include <vt/transport.h>
using namespace vt;
struct HMsg : vt::Message { RDMA_HandleType han; };
static RDMA_HandleType han; static char data[8]="abcdefg"; static int gets=0;
static void setHan(HMsg* m) { han=m->han; }
static RDMA_GetType getFn(BaseMessage*, ByteType, ByteType, TagType, bool) { return RDMA_GetType{reinterpret_cast<std::byte*>(data), 8}; }
int main(int argc,char** argv){ vt::initialize(argc,argv);
  auto me=theContext()->getNode();
  if (me==1) han=theRDMA()->registerNewRdmaHandler();
  runInEpochCollective([&]{ if (me==1) { auto m=makeMessage<HMsg>(); m->han=han; theMsg()->broadcastMsg<setHan>(m); } });
  if (me==0) theRDMA()->getData(han,[&](std::byte*, size_t){ gets++; });
  for (int i=0;i<1000;i++) { theSched()->runSchedulerOnceImpl(); }
  theCollective()->barrier();
  for (int i=0;i<1000;i++) { theSched()->runSchedulerOnceImpl(); }
  if (me==1) theRDMA()->associateGetFunction<BaseMessage,getFn>(nullptr,han,getFn,false);
  theCollective()->barrier();
  for (int i=0;i<100000;i++) { theSched()->runSchedulerOnceImpl(); }
  if (me==0) printf("XX %d gets answered (expected 1)\n",gets);
  theCollective()->barrier();
  fflush(stdout); _exit(0); }
