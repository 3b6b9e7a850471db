// A stand-in for OpenFHE: the types the emitted interfaces name.
#ifndef VERIF_OPENFHE_H
#define VERIF_OPENFHE_H
#include <memory>
namespace lbcrypto {
struct DCRTPoly {};
template <class T> struct CiphertextImpl {};
template <class T> struct EvalKeyImpl {};
template <class T> struct PrivateKeyImpl {};
template <class T> struct PublicKeyImpl {};
struct PlaintextImpl {};
template <class T> using Ciphertext = std::shared_ptr<CiphertextImpl<T>>;
template <class T> using ConstCiphertext = std::shared_ptr<const CiphertextImpl<T>>;
template <class T> using EvalKey = std::shared_ptr<EvalKeyImpl<T>>;
template <class T> using PrivateKey = std::shared_ptr<PrivateKeyImpl<T>>;
template <class T> using PublicKey = std::shared_ptr<PublicKeyImpl<T>>;
using Plaintext = std::shared_ptr<PlaintextImpl>;
template <class T> struct KeyPair { PublicKey<T> publicKey; PrivateKey<T> secretKey; };
template <class T> struct CryptoContextImpl { KeyPair<T> KeyGen() { return {}; } };
template <class T> using CryptoContext = std::shared_ptr<CryptoContextImpl<T>>;
struct CryptoContextBGVRNS {};
struct CryptoContextBFVRNS {};
struct CryptoContextCKKSRNS {};
template <class T> struct CCParams {};
}  // namespace lbcrypto
#endif
