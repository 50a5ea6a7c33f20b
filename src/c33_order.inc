// included once per simulated platform, after the headers
namespace
{
	using U = std::uint32_t;
	U hostToBig(U v) { return Nz::HostToBigEndian(v); }
	U hostToLittle(U v) { return Nz::HostToLittleEndian(v); }
	U bigToHost(U v) { return Nz::BigEndianToHost(v); }
	U littleToHost(U v) { return Nz::LittleEndianToHost(v); }
	c33::Order order { C33_ENV, C33_BIG != 0,
#ifdef NAZARA_BIG_ENDIAN
		true,
#else
		false,
#endif
#ifdef NAZARA_LITTLE_ENDIAN
		true,
#else
		false,
#endif
		Nz::PlatformEndianness == Nz::Endianness::BigEndian ? 1 : Nz::PlatformEndianness == Nz::Endianness::LittleEndian ? 0 : -1, { hostToBig, hostToLittle, bigToHost, littleToHost }, nullptr };
	c33::Reg reg(order);
}
